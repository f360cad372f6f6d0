------------------------------ MODULE Charsets ------------------------------
(* The GSM 7 bit tables of 3GPP TS 23.038 6.2.1 and Annex A, by national      *)
(* language identifier (index nli+1). Entry s+1 is the code point of septet s, *)
(* or -1 where the table leaves the septet undefined. 27 (ESC) escapes to the  *)
(* shift table and is never a character.                                       *)
EXTENDS Integers, Sequences, CharsetsInv

LockingTable == <<
  << \* NLI 0
64, 163, 36, 165, 232, 233, 249, 236, 242, 199, 10, 216, 248, 13, 197, 229,
916, 95, 934, 915, 923, 937, 928, 936, 931, 920, 926, -1, 198, 230, 223, 201,
32, 33, 34, 35, 164, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
161, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 196, 214, 209, 220, 167,
191, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 228, 246, 241, 252, 224
  >>,
  << \* NLI 1
64, 163, 36, 165, 8364, 233, 249, 305, 242, 199, 10, 286, 287, 13, 197, 229,
916, 95, 934, 915, 923, 937, 928, 936, 931, 920, 926, -1, 350, 351, 223, 201,
32, 33, 34, 35, 164, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
304, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 196, 214, 209, 220, 167,
231, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 228, 246, 241, 252, 224
  >>,
  << \* NLI 2
64, 163, 36, 165, 232, 233, 249, 236, 242, 199, 10, 216, 248, 13, 197, 229,
916, 95, 934, 915, 923, 937, 928, 936, 931, 920, 926, -1, 198, 230, 223, 201,
32, 33, 34, 35, 164, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
161, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 196, 214, 209, 220, 167,
191, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 228, 246, 241, 252, 224
  >>,
  << \* NLI 3
64, 163, 36, 165, 234, 233, 250, 237, 243, 231, 10, 212, 244, 13, 193, 225,
916, 95, 170, 199, 192, 8734, 94, 92, 8364, 211, 124, -1, 194, 226, 202, 201,
32, 33, 34, 35, 186, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63,
205, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 195, 213, 218, 220, 167,
126, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 227, 245, 96, 252, 224
  >>,
  << \* NLI 4
2433, 2434, 2435, 2437, 2438, 2439, 2440, 2441, 2442, 2443, 10, 2444, -1, 13, -1, 2447,
2448, -1, -1, 2451, 2452, 2453, 2454, 2455, 2456, 2457, 2458, -1, 2459, 2460, 2461, 2462,
32, 33, 2463, 2464, 2465, 2466, 2467, 2468, 41, 40, 2469, 2470, 44, 2471, 46, 2472,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 2474, 2475, 63,
2476, 2477, 2478, 2479, 2480, -1, 2482, -1, -1, -1, 2486, 2487, 2488, 2489, 2492, 2493,
2494, 2495, 2496, 2497, 2498, 2499, 2500, -1, -1, 2503, 2504, -1, -1, 2507, 2508, 2509,
2510, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 2519, 2524, 2525, 2544, 2545
  >>,
  << \* NLI 5
2689, 2690, 2691, 2693, 2694, 2695, 2696, 2697, 2698, 2699, 10, 2700, 2701, 13, -1, 2703,
2704, 2705, -1, 2707, 2708, 2709, 2710, 2711, 2712, 2713, 2714, -1, 2715, 2716, 2717, 2718,
32, 33, 2719, 2720, 2721, 2722, 2723, 2724, 41, 40, 2725, 2726, 44, 2727, 46, 2728,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 2730, 2731, 63,
2732, 2733, 2734, 2735, 2736, -1, 2738, 2739, -1, 2741, 2742, 2743, 2744, 2745, 2748, 2749,
2750, 2751, 2752, 2753, 2754, 2755, 2756, 2757, -1, 2759, 2760, 2761, -1, 2763, 2764, 2765,
2768, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 2784, 2785, 2786, 2787, 2801
  >>,
  << \* NLI 6
2433, 2434, 2435, 2309, 2310, 2311, 2312, 2313, 2314, 2315, 10, 2316, 2317, 13, 2318, 2319,
2320, 2321, 2322, 2323, 2324, 2325, 2326, 2327, 2328, 2329, 2330, -1, 2331, 2332, 2333, 2334,
32, 33, 2335, 2336, 2337, 2338, 2339, 2340, 41, 40, 2341, 2342, 44, 2343, 46, 2344,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 2345, 2346, 2347, 63,
2348, 2349, 2350, 2351, 2352, 2353, 2354, 2355, 2356, 2357, 2358, 2359, 2360, 2361, 2364, 2365,
2366, 2367, 2368, 2369, 2370, 2371, 2372, 2373, 2374, 2375, 2376, 2377, 2378, 2379, 2380, 2381,
2384, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 2418, 2427, 2428, 2430, 2431
  >>,
  << \* NLI 7
-1, 3202, 3203, 3205, 3206, 3207, 3208, 3209, 3210, 3211, 10, 3212, -1, 13, 3214, 3215,
3216, -1, 3218, 3219, 3220, 3221, 3222, 3223, 3224, 3225, 3226, -1, 3227, 3228, 3229, 3230,
32, 33, 3231, 3232, 3233, 3234, 3235, 3236, 41, 40, 3237, 3238, 44, 3239, 46, 3240,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 3242, 3243, 63,
3244, 3245, 3246, 3247, 3248, 3249, 3250, 3251, -1, 3253, 3254, 3255, 3256, 3257, 3260, 3261,
3262, 3263, 3264, 3265, 3266, 3267, 3268, -1, 3270, 3271, 3272, -1, 3274, 3275, 3276, 3277,
3285, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 3286, 3296, 3297, 3298, 3299
  >>,
  << \* NLI 8
-1, 3330, 3331, 3333, 3334, 3335, 3336, 3337, 3338, 3339, 10, 3340, -1, 13, 3342, 3343,
3344, -1, 3346, 3347, 3348, 3349, 3350, 3351, 3352, 3353, 3354, -1, 3355, 3356, 3357, 3358,
32, 33, 3359, 3360, 3361, 3362, 3363, 3364, 41, 40, 3365, 3366, 44, 3367, 46, 3368,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 3370, 3371, 63,
3372, 3373, 3374, 3375, 3376, 3377, 3378, 3379, 3380, 3381, 3382, 3383, 3384, 3385, -1, 3389,
3390, 3391, 3392, 3393, 3394, 3395, 3396, -1, 3398, 3399, 3400, -1, 3402, 3403, 3404, 3405,
3415, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 3424, 3425, 3426, 3427, 3449
  >>,
  << \* NLI 9
2817, 2818, 2819, 2821, 2822, 2823, 2824, 2825, 2826, 2827, 10, 2828, -1, 13, -1, 2831,
2832, -1, -1, 2835, 2836, 2837, 2838, 2839, 2840, 2841, 2842, -1, 2843, 2844, 2845, 2846,
32, 33, 2847, 2848, 2849, 2850, 2851, 2852, 41, 40, 2853, 2854, 44, 2855, 46, 2856,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 2858, 2859, 63,
2860, 2861, 2862, 2863, 2864, -1, 2866, 2867, -1, 2869, 2870, 2871, 2872, 2873, 2876, 2877,
2878, 2879, 2880, 2881, 2882, 2883, 2884, -1, -1, 2887, 2888, -1, -1, 2891, 2892, 2893,
2902, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 2903, 2912, 2913, 2914, 2915
  >>,
  << \* NLI 10
2561, 2562, 2563, 2565, 2566, 2567, 2568, 2569, 2570, -1, 10, -1, -1, 13, -1, 2575,
2576, -1, -1, 2579, 2580, 2581, 2582, 2583, 2584, 2585, 2586, -1, 2587, 2588, 2589, 2590,
32, 33, 2591, 2592, 2593, 2594, 2595, 2596, 41, 40, 2597, 2598, 44, 2599, 46, 2600,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 2602, 2603, 63,
2604, 2605, 2606, 2607, 2608, -1, 2610, 2611, -1, 2613, 2614, -1, 2616, 2617, 2620, -1,
2622, 2623, 2624, 2625, 2626, -1, -1, -1, -1, 2631, 2632, -1, -1, 2635, 2636, 2637,
2641, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 2672, 2673, 2674, 2675, 2676
  >>,
  << \* NLI 11
-1, 2946, 2947, 2949, 2950, 2951, 2952, 2953, 2954, -1, 10, -1, -1, 13, 2958, 2959,
2960, -1, 2962, 2963, 2964, 2965, -1, -1, -1, 2969, 2970, -1, -1, 2972, -1, 2974,
32, 33, 2975, -1, -1, -1, 2979, 2980, 41, 40, -1, -1, 44, -1, 46, 2984,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 2985, 2986, -1, 63,
-1, -1, 2990, 2991, 2992, 2993, 2994, 2995, 2996, 2997, 2998, 2999, 3000, 3001, -1, -1,
3006, 3007, 3008, 3009, 3010, -1, -1, -1, 3014, 3015, 3016, -1, 3018, 3019, 3020, 3021,
3024, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 3031, 3056, 3057, 3058, 3065
  >>,
  << \* NLI 12
3073, 3074, 3075, 3077, 3078, 3079, 3080, 3081, 3082, 3083, 10, 3084, -1, 13, 3086, 3087,
3088, -1, 3090, 3091, 3092, 3093, 3094, 3095, 3096, 3097, 3098, -1, 3099, 3100, 3101, 3102,
32, 33, 3103, 3104, 3105, 3106, 3107, 3108, 41, 40, 3109, 3110, 44, 3111, 46, 3112,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, -1, 3114, 3115, 63,
3116, 3117, 3118, 3119, 3120, 3121, 3122, 3123, -1, 3125, 3126, 3127, 3128, 3129, -1, 3133,
3134, 3135, 3136, 3137, 3138, 3139, 3140, -1, 3142, 3143, 3144, -1, 3146, 3147, 3148, 3149,
3157, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 3158, 3168, 3169, 3170, 3171
  >>,
  << \* NLI 13
1575, 1570, 1576, 1659, 1664, 1662, 1702, 1578, 1730, 1663, 10, 1657, 1661, 13, 1658, 1660,
1579, 1580, 1665, 1668, 1667, 1669, 1670, 1671, 1581, 1582, 1583, -1, 1676, 1672, 1673, 1674,
32, 33, 1679, 1677, 1584, 1585, 1681, 1683, 41, 40, 1689, 1586, 44, 1686, 46, 1688,
48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 1690, 1587, 1588, 63,
1589, 1590, 1591, 1592, 1593, 1601, 1602, 1705, 1706, 1707, 1711, 1715, 1713, 1604, 1605, 1606,
1722, 1723, 1724, 1608, 1732, 1749, 1729, 1726, 1569, 1740, 1744, 1746, 1613, 1616, 1615, 1623,
1620, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 1621, 1617, 1619, 1622, 1648
  >>
>>

ShiftTable == <<
  << \* NLI 0
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 12, -1, -1, 10, -1, -1,
-1, -1, -1, -1, 94, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, 123, 125, -1, -1, -1, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 1
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 12, -1, -1, 10, -1, -1,
-1, -1, -1, -1, 94, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, 123, 125, -1, -1, -1, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, -1, -1, -1, -1, -1, -1, 286, -1, 304, -1, -1, -1, -1, -1, -1,
-1, -1, -1, 350, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, 231, -1, 8364, -1, 287, -1, 305, -1, -1, -1, -1, -1, -1,
-1, -1, -1, 351, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 2
-1, -1, -1, -1, -1, -1, -1, -1, -1, 231, 12, -1, -1, 10, -1, -1,
-1, -1, -1, -1, 94, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, 123, 125, -1, -1, -1, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 193, -1, -1, -1, -1, -1, -1, -1, 205, -1, -1, -1, -1, -1, 211,
-1, -1, -1, -1, -1, 218, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, 225, -1, -1, -1, 8364, -1, -1, -1, 237, -1, -1, -1, -1, -1, 243,
-1, -1, -1, -1, -1, 250, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 3
-1, -1, -1, -1, -1, 234, -1, -1, -1, 231, 12, 212, 244, 10, 193, 225,
-1, -1, 934, 915, 94, 937, 928, 936, 931, 920, -1, -1, -1, -1, -1, 202,
-1, -1, -1, -1, -1, -1, -1, -1, 123, 125, -1, -1, -1, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 192, -1, -1, -1, -1, -1, -1, -1, 205, -1, -1, -1, -1, -1, 211,
-1, -1, -1, -1, -1, 218, -1, -1, -1, -1, -1, 195, 213, -1, -1, -1,
-1, 194, -1, -1, -1, 8364, -1, -1, -1, 237, -1, -1, -1, -1, -1, 243,
-1, -1, -1, -1, -1, 250, -1, -1, -1, -1, -1, 227, 245, -1, -1, 226
  >>,
  << \* NLI 4
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2534, 2535, -1, 2536, 2537, 2538, 2539,
2540, 2541, 2542, 2543, 2527, 2528, 2529, 2530, 123, 125, 2531, 2546, 2547, 2548, 2549, 92,
2550, 2551, 2552, 2553, 2554, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 5
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 2790, 2791, 2792, 2793,
2794, 2795, 2796, 2797, 2798, 2799, -1, -1, 123, 125, -1, -1, -1, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 6
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 2406, 2407, 2408, 2409,
2410, 2411, 2412, 2413, 2414, 2415, 2385, 2386, 123, 125, 2387, 2388, 2392, 2393, 2394, 92,
2395, 2396, 2397, 2398, 2399, 2400, 2401, 2402, 2403, 2416, 2417, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 7
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 3302, 3303, 3304, 3305,
3306, 3307, 3308, 3309, 3310, 3311, 3294, 3313, 123, 125, 3314, -1, -1, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 8
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 3430, 3431, 3432, 3433,
3434, 3435, 3436, 3437, 3438, 3439, 3440, 3441, 123, 125, 3442, 3443, 3444, 3445, 3450, 92,
3451, 3452, 3453, 3454, 3455, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 9
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 2918, 2919, 2920, 2921,
2922, 2923, 2924, 2925, 2926, 2927, 2908, 2909, 123, 125, 2911, 2928, 2929, -1, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 10
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 2662, 2663, 2664, 2665,
2666, 2667, 2668, 2669, 2670, 2671, 2649, 2650, 123, 125, 2651, 2652, 2654, 2677, -1, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 11
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 2404, 2405, -1, 3046, 3047, 3048, 3049,
3050, 3051, 3052, 3053, 3054, 3055, 3059, 3060, 123, 125, 3061, 3062, 3063, 3064, 3066, 92,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 12
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, -1, -1, -1, 3174, 3175, 3176, 3177,
3178, 3179, 3180, 3181, 3182, 3183, 3160, 3161, 123, 125, 3192, 3193, 3194, 3195, 3196, 92,
3197, 3198, 3199, -1, -1, -1, -1, -1, -1, -1, -1, -1, 91, 126, 93, -1,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>,
  << \* NLI 13
64, 163, 36, 165, 191, 34, 164, 37, 38, 39, 12, 42, 43, 13, 45, 47,
60, 61, 62, 161, 94, 161, 95, 35, 42, 1536, 1537, -1, 1776, 1777, 1778, 1779,
1780, 1781, 1782, 1783, 1784, 1785, 1548, 1549, 123, 125, 1550, 1551, 1552, 1553, 1554, 92,
1555, 1556, 1563, 1567, 1600, 1618, 1624, 1643, 1644, 1650, 1651, 1741, 91, 126, 93, 1748,
124, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79,
80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, 8364, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
  >>
>>

NLIs == 0..13

\* tables by identifier; identifiers without a table use the default one
Locking(nli) == IF nli \in NLIs THEN LockingTable[nli+1] ELSE LockingTable[1]
Shift(nli)   == IF nli \in NLIs THEN ShiftTable[nli+1] ELSE ShiftTable[1]

Chars(tab) == {tab[i] : i \in 1..128} \ {-1}
\* the septets of a character, of the tables of CharsetsInv
SeptetsOf(inv, c) ==
  IF c < 0 \/ c \div 32 >= Len(PageIndex) THEN {}
  ELSE LET i == PageIndex[c \div 32 + 1]
       IN IF i = 0 THEN {} ELSE IF inv[i] = <<>> THEN {} ELSE inv[i][(c % 32) + 1]
NoRev == NoInv
RL(nli) == IF nli \in NLIs THEN LockingInv[nli+1] ELSE LockingInv[1]
RS(nli) == IF nli \in NLIs THEN ShiftInv[nli+1] ELSE ShiftInv[1]
=============================================================================
