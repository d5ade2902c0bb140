package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	tokens := func() *Mon { return &Mon{merge: 16, freeze: true, marks: true, delay: 2} }
	driverProp("T01", "abstract interpretation of each tokenizer on any bytes, and on any well formed token followed by any bytes: positions, lengths and contents are compared by provenance",
		20, tokens, "Header", "Header_Alone", "Space", "Space_Found", "Name", "Value", "Header_Found", "Name_Found", "Value_Found", "Value_Escaped").also("frozen")
	numbers := func() *Mon {
		m := tokens()
		m.model = map[string]modelFn{}
		for l, d := range map[string]string{"Atoi": "tqAtoi", "ParseInt": "tqParseInt", "Itoa": "tqItoa", "FormatInt": "tqFormat", "AppendInt": "tqAppend"} {
			m.model["strconv."+l] = func(x *X, st *State, c *callCtx) []Outcome { return x.driverCall(st, d, c.site, c.args...) }
		}
		return m
	}
	driverProp("R02", "abstract interpretation of the decoding and the encoding of a TimeQuality from any bytes and any fields",
		12, numbers, "Found", "Marshal", "Encoded", "Decoded", "Unknown", "Values", "Other", "Accuracy", "AccuracyEncoded").checksOnly()
	driverProp("R03", "abstract interpretation of the making and the encoding of lists of any elements: contents and aliasing are compared by provenance",
		10, tokens, "Add", "Again", "Empty", "Encode", "Kept", "Error", "Many").checksOnly().also("frozen")
	unknown := func() *Mon {
		m := tokens()
		m.model = map[string]modelFn{"(" + modpath + "/sdata.SDID).Found": func(x *X, st *State, c *callCtx) []Outcome {
			return x.driverCall(st, "skNone", c.site, c.args[len(c.args)-1])
		}}
		return m
	}
	driverProp("R04", "abstract interpretation of the decoding and the encoding of elements made of any names and values, that no registered definition recognises",
		6, unknown, "Element", "Param", "Params", "Escaped", "Generic").checksOnly()
	driverProp("R01", "abstract interpretation of the registry, of any content, with definitions that do anything: typestate of its lock at each use of the map, and of the keys looked for and assigned",
		10, registryMon, "Register", "Group", "Parse").checksOnly()
}

// registryMon watches the map of the registry and its lock
func registryMon() *Mon {
	m := &Mon{merge: 24, model: map[string]modelFn{}}
	call := func(name string, args func(c *callCtx) []Val) modelFn {
		return func(x *X, st *State, c *callCtx) []Outcome { return x.driverCall(st, name, c.site, args(c)...) }
	}
	none := func(*callCtx) []Val { return nil }
	for _, l := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock"} {
		m.model[l] = call("rgLock", func(*callCtx) []Val { return []Val{boolC(true)} })
	}
	m.model["(*sync.RWMutex).RLock"] = call("rgLock", func(*callCtx) []Val { return []Val{boolC(false)} })
	for _, l := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock"} {
		m.model[l] = call("rgUnlock", none)
	}
	all := func(c *callCtx) []Val { return c.args }
	m.model["("+modpath+"/sdata.SDID).Found"] = call("rgFound", all)
	for _, t := range []string{"SDID", "SDIDLight"} {
		m.model["("+modpath+"/sdata."+t+").String"] = call("rgString", all)
	}
	m.mapOp = func(x *X, st *State, site ssa.Instruction, op string, t types.Type, k, v Val, found bool) []*State {
		mt, ok := t.Underlying().(*types.Map)
		if !ok || types.TypeString(mt.Elem(), nil) != modpath+"/sdata.SDID" {
			return one(st)
		}
		switch op {
		case "get":
			return x.call1(st, "rgGot", site, k, boolC(found))
		case "set":
			return x.call1(st, "rgSet", site, k, v)
		}
		return x.call1(st, "rgRead", site)
	}
	return m
}
