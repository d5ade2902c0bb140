package main

func fieldsMon() *Mon {
	m := &Mon{model: map[string]modelFn{}, merge: 16, freeze: true, marks: true, delay: 2}
	call := func(name string, n int) modelFn {
		return func(x *X, st *State, c *callCtx) []Outcome {
			return x.driverCall(st, name, c.site, c.args[:n]...)
		}
	}
	m.model["time.Parse"] = call("hdTime", 2)
	m.model[modpath+"/sdata.Parse"] = call("hdParse", 1)
	return m
}

func init() {
	fields := []string{"D08_Text", "D08_NoText", "D08_Digit", "D08_Digits", "D08_Hundred", "D08_Element", "D08_Param", "D08_Quoted", "D08_Escaped", "D08_Elements", "D08_Params", "D08_Bare", "D08_Three", "D08_Many"}
	refused := []string{"D09_Short_1", "D09_Short_2", "D09_Short_3", "D09_Short_4", "D09_Short_5", "D09_Short_6", "D09_Empty", "D09_Frame", "D09_Priority_Start", "D09_Priority_Long", "D09_Priority_NotDigit", "D09_Priority_Version", "D09_Priority_Value",
		"D09_Data_Start", "D09_Data_Open", "D09_Data_Quote", "D09_Data_After"}
	for _, d := range append(append([]string(nil), fields...), refused...) {
		addPass(d, driverPass(d, many(d, fieldsMon)))
	}
	addProp(&Prop{id: "D08", rule: "the decoder and the accessors are interpreted on messages made of any fields: the results are compared by provenance with the fields", floor: 200, passes: fields, want: checkOf("D08")})
	addProp(&Prop{id: "D09", rule: "the decoder is interpreted on each kind of malformed message, made of any bytes: it returns an error and no message", floor: 80, passes: refused, want: checkOf("D09")})
}
