//go:build !verifstd

package simk

func realExit(code int)   { panic("simk: realExit outside of the simulator") }
func sendResult(b []byte) { panic("simk: sendResult outside of the simulator") }
