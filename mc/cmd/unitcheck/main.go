// Command unitcheck decides the properties of the building blocks with a state
// of their own: the packet cursor, the option context and the listing renderer.
package main

import "gpgpmc/check"

func main() {
	check.Main(map[string]func(*check.Ctx){"C16": c16, "C23": c23, "C27": c27})
}
