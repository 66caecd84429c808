package main

import (
	"time"

	d "github.com/suiyunonghen/dxsvalue"
)

// jsonTrees is a set of trees every format can carry (numbers compared numerically).
func jsonTrees() []*M {
	return []*M{
		mObj(),
		mObj("a", mInt(1)),
		mObj("k\"ey\n", mStr("v\\al\tue"), "é", mStr("中文😀"), "plain", mStr("text")),
		mObj("s", mStr(""), "n", mK(KNull), "t", mK(KTrue), "f", mK(KFalse), "d", mDbl(-1.25), "i", mInt(1<<40)),
		mObj("o", mObj("p", mObj("q\\", mStr("\""))), "a", mArr(mInt(1), mStr("x\ny"), mArr(), mObj())),
		mObj("arr", mArr(mObj("id", mInt(1), "name", mStr("n1")), mObj("id", mInt(2), "name", mStr("n\u00e9")))),
		mObj("long", mStr(strOfLen(300)), strOfLen(40), mArr(mStr(strOfLen(33)), mInt(-129))),
		mObj("a", mInt(0), "b", mInt(-1), "c", mInt(127), "d", mInt(128), "e", mInt(255), "f", mInt(65536), "g", mInt(-32769), "h", mInt(-1<<31-1), "i", mDbl(0.1), "j", mDbl(1e100)),
	}
}

// typedTrees adds the kinds only binary formats carry.
func typedTrees() []*M {
	tm := time.Date(2021, 5, 6, 7, 8, 9, 250e6, time.UTC)
	return append(jsonTrees(),
		mObj("b", mBin([]byte{1, 2, 3, 0, 255}), "e", mArr(mBin(nil), mBin(bytesOfLen(300)))),
		mObj("t", mTime(tm), "b", mBin([]byte("abc")), "s", mStr("x"), "u", mArr(mTime(tm), mFlt(0.5))),
	)
}

func arrTrees() []*M {
	return []*M{
		mArr(),
		mArr(mInt(1), mStr("a\\b"), mK(KNull), mK(KTrue)),
		mArr(mObj("x", mArr(mObj("y\n", mStr("z\"")))), mArr(mArr(mInt(3)))),
	}
}

func scalarTrees() []*M {
	return []*M{mStr("te\nxt"), mInt(42), mDbl(2.5), mK(KNull), mK(KTrue), mStr("")}
}

func mpTrees() []*M {
	tm := time.Date(2021, 5, 6, 7, 8, 9, 0, time.UTC)
	r := append(typedTrees(), arrTrees()...)
	r = append(r, scalarTrees()...)
	return append(r, mObj("x", mExt(5, []byte{1, 2, 3}), "y", mArr(mExt(200, bytesOfLen(16)), mExt(1, nil))), mBin([]byte("root")), mExt(9, []byte("ext")), mTime(tm), mFlt(1.5))
}

func bsonTrees() []*M {
	return append(typedTrees(), mObj("o", mOID(bytesOfLen(12)), "x", mSubBin(4, []byte{1, 2, 3}), "y", mArr(mDec128(bytesOfLen(16)), mTS(5<<32|7))))
}

func yamlTrees() []*M {
	return []*M{
		mObj("a", mInt(1)),
		mObj("s", mStr("some text"), "n", mDbl(1.5), "t", mK(KTrue), "o", mObj("p", mObj("q", mStr("deep"))), "l", mArr(mInt(1), mStr("two"), mObj("k", mStr("v"), "w", mInt(3)))),
		mArr(mStr("x"), mObj("a", mInt(1), "b", mArr(mStr("y"), mInt(2)))),
		mObj("é", mStr("中文"), "c", mArr(mArr(mInt(1), mInt(2)), mObj("d", mArr(mStr("e"))))),
	}
}

type fdoc struct {
	f    *format
	m    *M
	b    []byte
	good bool
	name string
}

var plainLayout = &layout{indent: 2, compact: true, gap: 1, cgap: 1, eol: "\n", final: true}

func encodeFor(f string, m *M) []byte {
	switch f {
	case "json":
		return refEncode(m)
	case "mp":
		e := &mpEnc{}
		e.val(m)
		return e.out
	case "bson":
		return refBsonEncode(m)
	}
	return []byte(plainLayout.render(yOf(m)))
}

// formatDocs is the set of documents used by the history properties.
func formatDocs() []fdoc {
	var out []fdoc
	add := func(f string, ms []*M) {
		for _, m := range ms {
			out = append(out, fdoc{formats[f], m, encodeFor(f, m), true, f + " " + short(m.String())})
		}
	}
	add("json", append(append(jsonTrees(), arrTrees()...), scalarTrees()...))
	add("mp", mpTrees())
	add("bson", bsonTrees2())
	add("yaml", yamlTrees())
	out = append(out,
		fdoc{formats["json"], mObj("d", mStr("A/\u00e9\U0001F600"), "ke\ty", mArr(mStr("\b\f"))), []byte(`{"d":"\u0041\/\u00e9\ud83d\ude00","ke\ty":["\b\f"]}`), true, "json escapes"},
		fdoc{formats["yaml"], mObj("x", mObj("k", mStr("v")), "y", mObj("k", mStr("v"), "m", mInt(2)), "z", mObj("k", mStr("v"))), []byte("x: &a\n  k: v\ny:\n  <<: *a\n  m: 2\nz: *a\n"), true, "yaml anchors"},
	)
	bad := func(f string, s string) { out = append(out, fdoc{formats[f], nil, []byte(s), false, f + " bad " + s}) }
	bad("json", `{"a":1,"b":[1,2`)
	bad("json", `{"a":{"b":tru}}`)
	bad("json", `[1,2] x`)
	bad("json", `"abc`)
	bad("mp", "\x82\xa1a\x01\xa1b")
	bad("mp", "\x93\x01\xa5abc")
	bad("mp", "\x81\xa1a\xc1")
	bad("bson", string(refBsonEncode(mObj("a", mInt(1), "b", mObj("c", mStr("x"))))[:20]))
	bad("bson", "\x10\x00\x00\x00\x10a\x00\x01\x00\x00\x00\x0bz\x00\x00\x00")
	bad("yaml", "a: 1\nb:\n  - x\nbad line\n")
	bad("yaml", "- a\n- b\nc: d\n")
	return out
}

func bsonTrees2() []*M {
	var out []*M
	for _, m := range bsonTrees() {
		out = append(out, bsonExpect(m))
	}
	return out
}

var looseEq = eqOpt{numeric: true, tol: 2 * time.Millisecond}

func free(v *d.DxValue) {
	if v != nil && !v.ReadOnly() {
		d.FreeValue(v)
	}
}

// sizeLeaves lists one leaf of every size class the binary headers and buffers know.
func sizeLeaves() []*M {
	var l []*M
	for _, n := range []int{0, 1, 31, 32, 255, 256, 300, 65535, 65536} {
		l = append(l, mStr(strOfLen(n)), mBin(bytesOfLen(n)), mExt(5, bytesOfLen(n)))
	}
	for _, n := range []int{2, 3, 4, 8, 12, 16, 17} {
		l = append(l, mExt(7, bytesOfLen(n)))
	}
	for _, i := range []int64{0, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, -1, -32, -33, -128, -129, -32768, -32769, -1 << 31, -1<<31 - 1, -1 << 63} {
		l = append(l, mInt(i))
	}
	for _, tm := range boundaryTimes() {
		l = append(l, mTime(tm))
	}
	return append(l, mDbl(0.1), mDbl(-1e300), mFlt(0.1), mFlt(-2.5), mK(KTrue), mK(KFalse), mK(KNull))
}

// expressible tells whether format f can express m without change of kind.
func expressible(f string, m *M) bool {
	switch m.K {
	case KBin, KFlt, KTime:
		if f == "json" {
			return false
		}
		return f == "mp" || m.K != KFlt
	case KExt:
		return f == "mp"
	}
	for _, x := range m.Vals {
		if !expressible(f, x) {
			return false
		}
	}
	return true
}

// sizeDocs places every size class at the root, in an array and in an object, in every format that can express it.
func sizeDocs() []fdoc {
	var out []fdoc
	add := func(m *M) {
		for _, f := range []string{"json", "mp", "bson"} {
			if expressible(f, m) && (f != "bson" || m.K == KObj) {
				out = append(out, fdoc{formats[f], m, encodeFor(f, m), true, f + " sizes " + short(m.String())})
			}
		}
	}
	for _, x := range sizeLeaves() {
		add(x)
		add(mArr(x, mInt(1)))
		add(mObj("k", x, "l", mArr(x)))
	}
	for _, n := range []int{1, 15, 16, 31, 32, 255, 256, 300, 65536} {
		k := strOfLen(n)
		add(mObj(k, mInt(1), "l", mStr("x")))
		if n <= 300 {
			add(mObj("o", objOfLen(n)))
			add(objOfLen(n))
		}
		add(arrOfLen(n))
		add(mObj("a", arrOfLen(n)))
	}
	for _, n := range []int{1, 2, 3, 32, 300, 5000} { // text with escapes in every position class
		s := strOfLen(n)
		for _, x := range []string{"\"" + s, s + "\\", s + "\"" + s, "\\\"" + s + "\n\"\\"} {
			add(mStr(x))
			add(mArr(mStr(x), mStr("y")))
			add(mObj(x, mStr(x), "z", mInt(1)))
		}
	}
	return out
}

// bigTrees are wide, deep and long-keyed trees, so that behaviour depending on capacities, growth, lengths or depth
// is met by the checks whose exhaustive part works on small trees.
func bigTrees() []*M {
	var out []*M
	for _, n := range []int{7, 8, 9, 16, 17, 33, 65} {
		out = append(out, objOfLen(n), arrOfLen(n))
	}
	for _, n := range []int{5, 9, 17, 40} {
		m, a := mInt(int64(n)), mStr("leaf")
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				m = mObj("d"+itoa(i), m)
				a = mArr(mInt(int64(i)), a)
			} else {
				m = mArr(m, mStr("s"+itoa(i)))
				a = mObj("x"+itoa(i), a, "y", mInt(int64(i)))
			}
		}
		out = append(out, m, a)
	}
	m := mObj()
	for _, n := range []int{1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 255, 256, 300} {
		s := strOfLen(n)
		m.Keys = append(m.Keys, s, s[:n-1]+"\u00e9", "\\"+s)
		m.Vals = append(m.Vals, mInt(int64(n)), mStr(s), mObj(s, mArr(mInt(1))))
	}
	out = append(out, m)
	w := mObj()
	for i := 0; i < 12; i++ {
		w.Keys = append(w.Keys, "group"+itoa(i))
		w.Vals = append(w.Vals, mObj("list", arrOfLen(i), "map", objOfLen(12-i), "text", mStr(strOfLen(i*3))))
	}
	return append(out, w)
}

// sizedTrees are trees whose leaves or entry counts lie around and above the sizes at which code may switch
// strategy.
func sizedTrees() []*M {
	var out []*M
	for _, n := range []int{16, 17, 64, 255, 256, 257, 1023, 1024, 1025, 4096, 65536, 70000} {
		out = append(out, mBin(bytesOfLen(n)), mExt(4, bytesOfLen(n)), mArr(mInt(1), mExt(9, bytesOfLen(n)), mStr(strOfLen(n)), mObj("k", mBin(bytesOfLen(n)))))
	}
	return append(out, objOfLen(129), arrOfLen(129), arrOfLen(257))
}

// modelNodes lists the nodes of a tree in the order of nodesOf.
func modelNodes(m *M) []*M {
	out := []*M{m}
	for _, v := range m.Vals {
		out = append(out, modelNodes(v)...)
	}
	return out
}

// yamlBig lists the large trees the YAML renderer can express.
func yamlBig() []*M {
	var out []*M
	var clean func(m *M) bool
	clean = func(m *M) bool {
		for i, v := range m.Vals {
			if m.K == KObj {
				for j := range m.Keys[i] {
					if b := m.Keys[i][j]; b == '\\' || b == ':' || b == '#' {
						return false
					}
				}
			}
			if !clean(v) {
				return false
			}
		}
		return m.K != KStr || m.S != ""
	}
	for _, m := range bigTrees() {
		if !emptyInside(m) && clean(m) {
			out = append(out, m)
		}
	}
	m, l := mObj(), mObj()
	for _, n := range []int{1, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300, 1024, 5000} {
		s := strOfLen(n)
		m.Keys = append(m.Keys, s, s[:n-1]+"\u00e9")
		m.Vals = append(m.Vals, mInt(int64(n)), mObj(s, mArr(mInt(1), mStr(s))))
		l.Keys = append(l.Keys, "k"+itoa(n))
		l.Vals = append(l.Vals, mStr(s))
	}
	out = append(out, m, l)
	w := mObj()
	for i := 1; i < 13; i++ {
		w.Keys = append(w.Keys, "group"+itoa(i))
		w.Vals = append(w.Vals, mObj("list", arrOfLen(i), "map", objOfLen(13-i), "text", mStr(strOfLen(i*3))))
	}
	return append(out, w)
}

// bigFdocs is every large tree as a document of every format that can express it.
func bigFdocs() []fdoc {
	var out []fdoc
	for _, m := range bigTrees() {
		for _, f := range []string{"json", "mp", "bson"} {
			w := m
			if f == "bson" && m.K != KObj {
				w = mObj("root", m)
			}
			out = append(out, fdoc{formats[f], w, encodeFor(f, w), true, f + " large " + short(w.String())})
		}
	}
	for _, m := range yamlBig() {
		out = append(out, fdoc{formats["yaml"], m, encodeFor("yaml", m), true, "yaml large " + short(m.String())})
	}
	return out
}
