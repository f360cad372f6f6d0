---- MODULE CharsetsInv ----
(* Generated by tools/mkinverse.py from Charsets.tla: the septets of each
   character, by page of 32 characters. *)
EXTENDS Integers, Sequences
PageIndex == <<1,2,3,4,0,5,6,7,8,9,10,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,11,12,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,14,15,16,17,18,19,20,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,57,0,0,0,0,0,0,0,0,0,0,58>>
LockingInv == <<
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{34},{35},{2},{37},{38},{39},{40},{41},{42},{43},{44},{45},{46},{47},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{60},{61},{62},{63}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{},{},{},{},{17}>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<{},{64},{},{1},{36},{3},{},{95},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{96}>>,
<<{},{},{},{},{91},{14},{28},{9},{},{31},{},{},{},{},{},{},{},{93},{},{},{},{},{92},{},{11},{},{},{},{94},{},{},{30}>>,
<<{127},{},{},{},{123},{15},{29},{},{4},{5},{},{},{7},{},{},{},{},{125},{8},{},{},{},{124},{},{12},{6},{},{},{126},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{19},{16},{},{},{},{25},{},{},{20},{},{},{26},{}>>,
<<{22},{},{},{24},{},{},{18},{},{23},{21},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{34},{35},{2},{37},{38},{39},{40},{41},{42},{43},{44},{45},{46},{47},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{60},{61},{62},{63}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{},{},{},{},{17}>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<{},{},{},{1},{36},{3},{},{95},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{91},{14},{},{9},{},{31},{},{},{},{},{},{},{},{93},{},{},{},{},{92},{},{},{},{},{},{94},{},{},{30}>>,
<<{127},{},{},{},{123},{15},{},{96},{},{5},{},{},{},{},{},{},{},{125},{8},{},{},{},{124},{},{},{6},{},{},{126},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{11},{12}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{64},{7},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{28},{29}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{19},{16},{},{},{},{25},{},{},{20},{},{},{26},{}>>,
<<{22},{},{},{24},{},{},{18},{},{23},{21},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{4},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{34},{35},{2},{37},{38},{39},{40},{41},{42},{43},{44},{45},{46},{47},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{60},{61},{62},{63}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{},{},{},{},{17}>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<{},{64},{},{1},{36},{3},{},{95},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{96}>>,
<<{},{},{},{},{91},{14},{28},{9},{},{31},{},{},{},{},{},{},{},{93},{},{},{},{},{92},{},{11},{},{},{},{94},{},{},{30}>>,
<<{127},{},{},{},{123},{15},{29},{},{4},{5},{},{},{7},{},{},{},{},{125},{8},{},{},{},{124},{},{12},{6},{},{},{126},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{19},{16},{},{},{},{25},{},{},{20},{},{},{26},{}>>,
<<{22},{},{},{24},{},{},{18},{},{23},{21},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{34},{35},{2},{37},{38},{39},{40},{41},{42},{43},{44},{45},{46},{47},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{60},{61},{62},{63}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{},{23},{},{22},{17}>>,
<<{125},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{26},{},{96},{}>>,
<<{},{},{},{1},{},{3},{},{95},{},{},{18},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{36},{},{},{},{},{}>>,
<<{20},{14},{28},{91},{},{},{},{19},{},{31},{30},{},{},{64},{},{},{},{},{},{25},{11},{92},{},{},{},{},{93},{},{94},{},{},{}>>,
<<{127},{15},{29},{123},{},{},{},{9},{},{5},{4},{},{},{7},{},{},{},{},{},{8},{12},{124},{},{},{},{},{6},{},{126},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{16},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{24},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{21},{}>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{0},{1},{2},{},{3},{4},{5},{6},{7},{8},{9},{11},{},{},{15},{16},{},{},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{},{70},{},{},{},{74},{75},{76},{77},{},{},{78},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{},{},{89},{90},{},{},{93},{94},{95},{96},{},{},{},{},{},{},{},{},{123},{},{},{},{},{124},{125},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{126},{127},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{0},{1},{2},{},{3},{4},{5},{6},{7},{8},{9},{11},{12},{},{15},{16},{17},{},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{},{70},{71},{},{73},{74},{75},{76},{77},{},{},{78},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{87},{},{89},{90},{91},{},{93},{94},{95},{},{},{96},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{123},{124},{125},{126},{},{},{},{},{},{},{},{},{},{},{},{},{},{127},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{3},{4},{5},{6},{7},{8},{9},{11},{12},{14},{15},{16},{17},{18},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{60},{61},{62},{64},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{},{},{78},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{87},{88},{89},{90},{91},{92},{93},{94},{95},{},{},{96},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{123},{},{},{},{},{},{},{},{},{124},{125},{},{126},{127}>>,
<<{},{0},{1},{2},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{1},{2},{},{3},{4},{5},{6},{7},{8},{9},{11},{},{14},{15},{16},{},{18},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{69},{70},{71},{},{73},{74},{75},{76},{77},{},{},{78},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{},{88},{89},{90},{},{92},{93},{94},{95},{},{},{},{},{},{},{},{96},{123},{},{},{},{},{},{},{},{},{}>>,
<<{124},{125},{126},{127},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{1},{2},{},{3},{4},{5},{6},{7},{8},{9},{11},{},{14},{15},{16},{},{18},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{},{},{},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{},{88},{89},{90},{},{92},{93},{94},{95},{},{},{},{},{},{},{},{},{},{96},{},{},{},{},{},{},{},{}>>,
<<{123},{124},{125},{126},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{127},{},{},{},{},{},{}>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{0},{1},{2},{},{3},{4},{5},{6},{7},{8},{9},{11},{},{},{15},{16},{},{},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{},{70},{71},{},{73},{74},{75},{76},{77},{},{},{78},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{},{},{89},{90},{},{},{93},{94},{95},{},{},{},{},{},{},{},{},{96},{123},{},{},{},{},{},{},{},{}>>,
<<{124},{125},{126},{127},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{0},{1},{2},{},{3},{4},{5},{6},{7},{8},{},{},{},{},{15},{16},{},{},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{},{70},{71},{},{73},{74},{},{76},{77},{},{},{78},{},{80},{81}>>,
<<{82},{83},{84},{},{},{},{},{89},{90},{},{},{93},{94},{95},{},{},{},{96},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{123},{124},{125},{126},{127},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{1},{2},{},{3},{4},{5},{6},{7},{8},{},{},{},{14},{15},{16},{},{18},{19},{20},{21},{},{},{},{25},{26},{},{29},{},{31},{34}>>,
<<{},{},{},{38},{39},{},{},{},{47},{60},{61},{},{},{},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{},{},{},{},{80},{81}>>,
<<{82},{83},{84},{},{},{},{88},{89},{90},{},{92},{93},{94},{95},{},{},{96},{},{},{},{},{},{},{123},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{124},{125},{126},{},{},{},{},{},{},{127},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{0},{1},{2},{},{3},{4},{5},{6},{7},{8},{9},{11},{},{14},{15},{16},{},{18},{19},{20},{21},{22},{23},{24},{25},{26},{28},{29},{30},{31},{34}>>,
<<{35},{36},{37},{38},{39},{42},{43},{45},{47},{},{61},{62},{64},{65},{66},{67},{68},{69},{70},{71},{},{73},{74},{75},{76},{77},{},{},{},{79},{80},{81}>>,
<<{82},{83},{84},{85},{86},{},{88},{89},{90},{},{92},{93},{94},{95},{},{},{},{},{},{},{},{96},{123},{},{},{},{},{},{},{},{},{}>>,
<<{124},{125},{126},{127},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{10},{},{},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{32},{33},{},{},{},{},{},{},{41},{40},{},{},{44},{},{46},{},{48},{49},{50},{51},{52},{53},{54},{55},{56},{57},{58},{59},{},{},{},{63}>>,
<<>>,
<<{},{97},{98},{99},{100},{101},{102},{103},{104},{105},{106},{107},{108},{109},{110},{111},{112},{113},{114},{115},{116},{117},{118},{119},{120},{121},{122},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{88},{1},{},{},{},{},{0},{2},{},{7},{16},{17},{24},{25},{26},{36},{37},{43},{61},{62},{64},{65},{66},{67},{68},{},{},{},{},{},{}>>,
<<{},{69},{70},{},{77},{78},{79},{},{83},{},{},{},{},{92},{},{94},{93},{124},{},{125},{96},{123},{126},{95},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{127},{},{},{},{},{},{},{},{},{11},{14},{3},{15},{12},{5},{9}>>,
<<{4},{18},{},{20},{19},{21},{22},{23},{29},{30},{31},{},{28},{35},{},{34},{},{38},{},{39},{},{},{45},{},{47},{42},{60},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{6},{},{},{71},{72},{73},{},{},{},{74},{},{76},{},{75},{},{},{},{},{},{},{80},{81},{82},{},{87},{}>>,
<<{},{86},{8},{},{84},{},{},{},{},{},{},{},{89},{},{},{},{90},{},{91},{},{},{85},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>>>>>
ShiftInv == <<
<<<<{},{},{},{},{},{},{},{},{},{},{13},{},{10},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{60},{47},{62},{20},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{13},{},{10},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{60},{47},{62},{20},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{99},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{71},{103}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{73},{105},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{83},{115}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{13},{},{10},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{60},{47},{62},{20},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<>>,
<<{},{65},{},{},{},{},{},{},{},{},{},{},{},{73},{},{},{},{},{},{79},{},{},{},{},{},{},{85},{},{},{},{},{}>>,
<<{},{97},{},{},{},{},{},{9},{},{},{},{},{},{105},{},{},{},{},{},{111},{},{},{},{},{},{},{117},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{13},{},{10},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{60},{47},{62},{20},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<>>,
<<{65},{14},{97},{91},{},{},{},{},{},{},{31},{},{},{73},{},{},{},{},{},{79},{11},{92},{},{},{},{},{85},{},{},{},{},{}>>,
<<{},{15},{127},{123},{},{},{},{9},{},{},{5},{},{},{105},{},{},{},{},{},{111},{12},{124},{},{},{},{},{117},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{19},{},{},{},{},{25},{},{},{},{},{},{},{}>>,
<<{22},{},{},{24},{},{},{18},{},{23},{21},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{36}>>,
<<{37},{38},{39},{42},{},{},{25},{26},{28},{29},{30},{31},{32},{33},{34},{35},{},{},{43},{44},{45},{46},{48},{49},{50},{51},{52},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{25},{26},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{38},{39},{42},{43},{},{},{},{44},{45},{46},{48},{49},{50},{51},{52}>>,
<<{53},{54},{55},{56},{25},{26},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{57},{58},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{25},{26},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{38},{}>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{},{39},{42},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{25},{26},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{38},{39},{42},{43},{44},{45},{},{},{},{},{46},{48},{49},{50},{51},{52}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{25},{26},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{38},{39},{},{42}>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{43},{44},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{25},{26},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{38},{39},{42},{43},{},{44},{}>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{},{},{},{},{},{45},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{25},{26},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{},{},{},{38},{39},{42},{43},{44},{45},{},{46},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{38},{39},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{},{},{},{},{},{},{},{},{42},{43},{44},{45},{46},{48},{49},{50}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>,
<<<<{},{},{},{},{},{},{},{},{},{},{},{},{10},{13},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{5},{23},{2},{7},{8},{9},{},{},{11,24},{12},{},{14},{},{15},{},{},{},{},{},{},{},{},{},{},{},{},{16},{17},{18},{}>>,
<<{0},{65},{66},{67},{68},{69},{70},{71},{72},{73},{74},{75},{76},{77},{78},{79},{80},{81},{82},{83},{84},{85},{86},{87},{88},{89},{90},{60},{47},{62},{20},{22}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{40},{64},{41},{61},{}>>,
<<{},{19,21},{},{1},{6},{3},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{4}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{25},{26},{},{},{},{},{},{},{},{},{},{},{38},{39},{42},{43},{44},{45},{46},{48},{49},{},{},{},{},{},{},{50},{},{},{},{51}>>,
<<>>,
<<{52},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{53},{},{},{},{},{},{54},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{55},{56},{},{},{},{},{},{57},{58},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{59},{},{},{},{},{},{},{63},{},{},{},{},{},{},{},{},{},{},{}>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{28},{29},{30},{31},{32},{33},{34},{35},{36},{37},{},{},{},{},{},{}>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<>>,
<<{},{},{},{},{},{},{},{},{},{},{},{},{101},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}>>,
<<>>>>>>
NoInv == <<<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>,<<>>>>
====
