package main

func init() {
	register(&checkDef{id: "C21", spec: true, rule: "contract drivers over StatSourceFromStruct and StructVal, with a model of package reflect on values of known type that panics where reflect does: for a catalogue of struct types (every numeric and boolean kind, named types, pointers to any depth, nested, embedded, unexported and tagged fields, every kind of field that is no number) with arbitrary contents, every numeric or boolean field is emitted exactly once under its dotted name with its value, ignored and nil ones are not, and nothing panics; values that are no structs emit nothing", run: runC21})
}

func runC21(c *Ctx) {
	o := c.specOpts()
	o.Reflect = true
	c.SpecAll("field", o)
	c.Floor("field", 60)
}
