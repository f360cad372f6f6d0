// vgen runs generated calls on the library and writes them as records.
package main

import "verif/run"

func main() { run.Main() }
