// core is the driver of the packages that need no parser.
package main

import "verif/harness/kit"

func main() { kit.Main() }
