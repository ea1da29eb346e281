package checks

import (
	"fmt"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/testutils"

	"verif/harness/vh"
)

// sampleSets are the programs of the repository's own tests: realistic inputs
// for monitors that do not depend on what those tests expect.
var sampleSets = map[string][]testutils.CodeSample{
	"G101":       testutils.SampleCodeG101,
	"G101Values": testutils.SampleCodeG101Values,
	"G102":       testutils.SampleCodeG102,
	"G103":       testutils.SampleCodeG103,
	"G104":       testutils.SampleCodeG104,
	"G104Audit":  testutils.SampleCodeG104Audit,
	"G106":       testutils.SampleCodeG106,
	"G107":       testutils.SampleCodeG107,
	"G108":       testutils.SampleCodeG108,
	"G109":       testutils.SampleCodeG109,
	"G110":       testutils.SampleCodeG110,
	"G111":       testutils.SampleCodeG111,
	"G112":       testutils.SampleCodeG112,
	"G114":       testutils.SampleCodeG114,
	"G115":       testutils.SampleCodeG115,
	"G201":       testutils.SampleCodeG201,
	"G202":       testutils.SampleCodeG202,
	"G203":       testutils.SampleCodeG203,
	"G204":       testutils.SampleCodeG204,
	"G301":       testutils.SampleCodeG301,
	"G302":       testutils.SampleCodeG302,
	"G303":       testutils.SampleCodeG303,
	"G304":       testutils.SampleCodeG304,
	"G305":       testutils.SampleCodeG305,
	"G306":       testutils.SampleCodeG306,
	"G307":       testutils.SampleCodeG307,
	"G401":       testutils.SampleCodeG401,
	"G401b":      testutils.SampleCodeG401b,
	"G402":       testutils.SampleCodeG402,
	"G403":       testutils.SampleCodeG403,
	"G404":       testutils.SampleCodeG404,
	"G405":       testutils.SampleCodeG405,
	"G405b":      testutils.SampleCodeG405b,
	"G406":       testutils.SampleCodeG406,
	"G406b":      testutils.SampleCodeG406b,
	"G407":       testutils.SampleCodeG407,
	"G501":       testutils.SampleCodeG501,
	"G502":       testutils.SampleCodeG502,
	"G503":       testutils.SampleCodeG503,
	"G504":       testutils.SampleCodeG504,
	"G505":       testutils.SampleCodeG505,
	"G506":       testutils.SampleCodeG506,
	"G507":       testutils.SampleCodeG507,
	"G601":       testutils.SampleCodeG601,
	"G602":       testutils.SampleCodeG602,
}

type sampleProgram struct {
	name  string
	files []vh.Src
	conf  gosec.Config
}

func samplePrograms() []sampleProgram {
	var ps []sampleProgram
	for _, k := range sortedKeys(sampleSets) {
		for n, s := range sampleSets[k] {
			p := sampleProgram{name: fmt.Sprintf("%s/%d", k, n), conf: gosec.NewConfig()}
			for key, v := range s.Config {
				p.conf[key] = v
			}
			for i, t := range s.Code {
				p.files = append(p.files, vh.Src{Name: fmt.Sprintf("f%d.go", i), Text: t})
			}
			ps = append(ps, p)
		}
	}
	return ps
}
