package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P04: only what its schema allows becomes a message, and the schemas allow the messages that are made.

func init() {
	register(&Check{ID: "P04", Level: "other",
		Rule:        "(path) each version of each message has a schema of its own, which asks for that version and for nothing the Go type of it does not have; (validator) data is valid only when it is JSON, the schema could be used and it found no error that counts; (valid) each kind of message is checked against its own schema, replies and transports only when that is asked for; (decoded) what is decoded into a message is what was found valid before, of the version expected, and a failure of either gives no message; (sent) what is encoded is given only when it is valid; (found) errors of validating machines, inventories and DDLs are not lost",
		Explanation: "Every path through the validator, the validity tests, the constructors and the encoders of both protocol versions is explored with values named by where they come from; the embedded schema files are read and compared with the types and tags of the structs they are about.",
		Run:         schemaChecks})
}

var protocolKinds = []string{"Request", "Reply", "SecureRequest", "SecureReply", "TransportMessage"}

func protocolConst(kind string, v int) string {
	return fmt.Sprintf("%sV%d", strings.TrimSuffix(kind, "Message"), v)
}

func schemaChecks(p *Prog, r *Report) {
	schemaFiles(p, r)
	schemaValidator(p, r)
	for v := 1; v <= 2; v++ {
		schemaUse(p, r, v)
	}
	otherSchemas(p, r)
}

// --- files

type schemaNode struct {
	Type       any                    `json:"type"`
	Required   []string               `json:"required"`
	Properties map[string]*schemaNode `json:"properties"`
	Items      json.RawMessage        `json:"items"`
	Enum       []any                  `json:"enum"`
	Const      any                    `json:"const"`
	MinLength  int                    `json:"minLength"`
}

func schemaFiles(p *Prog, r *Report) {
	const rule = "path"
	f := r.anchor(rule, "protocol.schemaPath")
	if f == nil {
		return
	}
	used := map[string]string{}
	n := 0
	for v := 1; v <= 2; v++ {
		for _, kind := range protocolKinds {
			name := protocolConst(kind, v)
			c := p.pkgConst("protocol", name)
			val := ""
			if c != nil {
				val = constant.StringVal(c)
			}
			if val == "" {
				r.ob(rule, "protocol."+name, false, "", "is not a constant")
				continue
			}
			t := &interp{p: p, terms: true, conds: true, inline: nothing}
			path := ""
			for _, x := range t.run(f, ienv{f.Params[0]: constant.MakeString(val)}) {
				if x.ret == nil || len(x.vals) != 2 {
					continue
				}
				got := "?"
				if x.vals[0] != nil && x.vals[0].Kind() == constant.String && sameConst(x.vals[1], isNil) {
					got = constant.StringVal(x.vals[0])
				}
				if path != "" && path != got {
					got = "?"
				}
				path = got
			}
			n++
			other := used[path]
			r.ob(rule, "the schema of "+name, path != "" && path != "?" && other == "", p.pos(f.Pos()), fmt.Sprintf("it is %q, also that of %s", path, other))
			used[path] = name
			raw, err := os.ReadFile(filepath.Join(p.Root, "internal/fs", path))
			var s schemaNode
			if err == nil {
				err = json.Unmarshal(raw, &s)
			}
			if err != nil {
				r.ob(rule, path, false, "", err.Error())
				continue
			}
			where := "internal/fs/" + path
			want := s.Properties["protocol"]
			only := want != nil && (want.Const == val || len(want.Enum) == 1 && want.Enum[0] == val)
			r.ob(rule, where+" asks for "+val, only, where, "it asks for something else")
			req := false
			for _, q := range s.Required {
				req = req || q == "protocol"
			}
			r.ob(rule, where+" requires a protocol", req, where, "a message may leave it out")
			pkg := fmt.Sprintf("protocol/v%d", v)
			var obj types.Object
			for _, pk := range p.Pkgs {
				if pk.PkgPath == modPath+"/"+pkg {
					obj = pk.Types.Scope().Lookup(kind)
				}
			}
			if obj == nil {
				r.ob(rule, pkg+"."+kind, false, "", "has no type")
				continue
			}
			fitsSchema(r, rule, where, pkg+"."+kind, &s, obj.Type())
		}
	}
	r.need(rule, "schemas of messages", n, 10)
	// others have none
	t := &interp{p: p, terms: true, conds: true, compare: true, inline: nothing}
	r.judge(rule, t, f, ienv{f.Params[0]: constant.MakeString("other")}, "anything else has no schema", func(o *pathOf) string {
		if o.out == "succeed" {
			return "can give " + o.given
		}
		return ""
	})
}

// fitsSchema: what is encoded from a type can meet a schema.
func fitsSchema(r *Report, rule, where, what string, s *schemaNode, typ types.Type) {
	st, ok := deref(typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	type field struct {
		typ  types.Type
		omit bool
	}
	fields := map[string]field{}
	var collect func(st *types.Struct)
	collect = func(st *types.Struct) {
		for i := 0; i < st.NumFields(); i++ {
			tag, opts, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			if tag == "-" || tag == "" && !st.Field(i).Exported() && !st.Field(i).Anonymous() {
				continue
			}
			if in, ok := deref(st.Field(i).Type()).Underlying().(*types.Struct); ok && tag == "" && st.Field(i).Anonymous() {
				collect(in)
				continue
			}
			if tag == "" {
				tag = st.Field(i).Name()
			}
			fields[tag] = field{st.Field(i).Type(), strings.Contains(opts, "omitempty")}
		}
	}
	collect(st)
	need := map[string]bool{}
	for _, q := range s.Required {
		need[q] = true
		fd, ok := fields[q]
		d := "it has no such field"
		if ok && fd.omit {
			// an empty one is refused either way
			_, isPtr := fd.typ.Underlying().(*types.Pointer)
			ok = isPtr || s.Properties[q] != nil && s.Properties[q].MinLength > 0
			d = "it is left out when empty"
		}
		r.ob(rule, what+" has the "+q+" that "+where+" requires", ok, where, d)
	}
	names := make([]string, 0, len(s.Properties))
	for k := range s.Properties {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		q := s.Properties[k]
		fd, ok := fields[k]
		if !ok {
			continue
		}
		r.ob(rule, what+"."+k+" is what "+where+" says", kindFits(q.Type, fd.typ), where, fmt.Sprintf("it is a %s and not %v", fd.typ, q.Type))
		if q.MinLength > 0 && !need[k] {
			r.ob(rule, what+"."+k+" may be empty", fd.omit, where, "the schema does not allow it to be empty and it is not left out then")
		}
		if q.Properties != nil {
			fitsSchema(r, rule, where, what+"."+k, q, fd.typ)
		}
	}
}

func kindFits(kind any, t types.Type) bool {
	t = deref(t).Underlying()
	switch kind {
	case "string":
		if sl, ok := t.(*types.Slice); ok {
			b, ok := sl.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Byte
		}
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case "integer":
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	case "array":
		switch t.(type) {
		case *types.Slice, *types.Array:
			return true
		}
		return false
	case "object":
		switch t.(type) {
		case *types.Struct, *types.Map:
			return true
		}
		return false
	}
	return true
}

// --- validating

func schemaValidator(p *Prog, r *Report) {
	const rule = "validator"
	if f := r.anchor(rule, "internal/util.ValidateSchemaFromFS"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: inPackage("internal/util")}
		const (
			file = "FS.ReadFile(path)"
			sch  = "CompileString(Base(path) " + file + ")"
			val  = sch + ".Validate(data)"
		)
		r.judge(rule, t, f, paramTerms(f, "path", "data"), "what is valid", func(o *pathOf) string {
			// errors are told apart by their type
			listed := false
			for h := range o.have {
				listed = listed || strings.HasPrefix(h, "if is(") && strings.Contains(h, "ValidationError") && strings.HasSuffix(h, " true")
			}
			return firstOf(o.onlyWhen(file+"#1==nil", sch+"#1==nil"), o.failsOnly(file+"#1==nil", sch+"#1==nil", val+"==nil"), func() string {
				if o.out == "succeed" && o.is(val+"==nil") != yes && !listed {
					return "can take what is not valid"
				}
				return ""
			}())
		})
		listedErrors(p, r, rule, f)
	}
	if f := r.anchor(rule, "protocol.SchemaValidate"); f != nil {
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: inPackage("protocol", "protocol.schemaPath")}
		r.judge(rule, t, f, paramTerms(f, "version", "data"), "what is valid", func(o *pathOf) string {
			const path = "schemaPath(version)"
			decoded, errs := "", ""
			for h := range o.have {
				if x, ok := strings.CutPrefix(h, "if nil==Unmarshal(data "); ok {
					decoded = strings.TrimSuffix(strings.TrimSuffix(x, " true"), " false")
				}
				if x, ok := strings.CutPrefix(h, "if nil==ValidateSchemaFromFS("+path+" "); ok {
					errs, _, _ = strings.Cut("ValidateSchemaFromFS("+path+" "+x, "#1 ")
				}
			}
			is := []string{path + "#1==nil", "Unmarshal(data " + decoded + "==nil", errs + "#1==nil"}
			if o.out == "fail" {
				return o.failsOnly(is...)
			}
			if w := o.onlyWhen(is...); w != "" {
				return w
			}
			switch {
			case strings.HasSuffix(errs, " nil)"), strings.HasSuffix(errs, " data)"):
				return "can look at something else than what it decoded"
			case o.given != "empty("+errs+")" && !(o.given == "true" && o.is("empty("+errs+")") == yes) && !(o.given == "false" && o.is("empty("+errs+")") == no):
				return "can give " + o.given
			case noIdentity(showTerm(o.vals[1])) != errs && o.is("empty("+errs+")") != yes:
				return "can lose the errors"
			}
			return ""
		})
	}
	for _, v := range []string{"v1", "v2"} {
		if f := r.anchor(rule, "protocol/"+v+".schemaValidate"); f != nil {
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: nothing}
			r.judge(rule, t, f, paramTerms(f, "version", "data"), "says what the validator does", func(o *pathOf) string {
				const all = "SchemaValidate(version data)"
				if len(o.vals) != 3 || noIdentity(showTerm(o.vals[1])) != all+"#1" || o.out != all+"#2" && o.is(all+"#2==nil") != yes && o.out != "fail" {
					return "can say something else"
				}
				return ""
			})
		}
	}
}

// listedErrors: all that a validation found is given, but what only says that something below failed.
func listedErrors(p *Prog, r *Report, rule string, f *ssa.Function) {
	list := func(v ssa.Value) bool {
		return strings.HasSuffix(loadedField(v), ".Errors")
	}
	n := 0
	for _, g := range p.Funcs {
		if g != f && !(fnPkgPath(g) == fnPkgPath(f) && p.reaches(f, fname(g))) {
			continue
		}
		for _, l := range loopOver(g, list) {
			n++
			_, all := l.visits()
			r.ob(rule, fname(g)+" looks at all errors", all && l.leftEarly() == nil, p.pos(g.Pos()), "it can stop before the last")
			why := skips(l)
			r.ob(rule, fname(g)+" gives all errors", why == "", p.pos(g.Pos()), why)
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if ok && reachableAfter(l.head.Instrs[0], ret) && len(ret.Results) > 0 {
					r.at(rule, ret, fname(g)+" gives the errors it found", appended(l, ret.Results[0], map[ssa.Value]bool{}), "it gives something else")
				}
			}
		}
	}
	r.need(rule, "loops over the errors of a validation", n, 1)
}

// skips: a pass of the loop that adds nothing, and why it may.
func skips(l *loop) string {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.head {
			return true
		}
		if seen[b] || !l.body[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && isBuiltin(&c.Call) && c.Call.Value.Name() == "append" {
				return false
			}
		}
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if cmp, ok := br.Cond.(*ssa.BinOp); ok && summary(cmp) {
				n := 1
				if cmp.Op == token.NEQ {
					n = 0
				}
				return walk(b.Succs[n])
			}
		}
		for _, t := range b.Succs {
			if walk(t) {
				return true
			}
		}
		return false
	}
	for _, t := range l.head.Succs {
		if l.body[t] && t != l.head && walk(t) {
			return "an error that says more than that something below it failed can be left out"
		}
	}
	return ""
}

// appended: what the loop adds to is part of the value.
func appended(l *loop, v ssa.Value, busy map[ssa.Value]bool) bool {
	if busy[v] {
		return false
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if !isBuiltin(&x.Call) || x.Call.Value.Name() != "append" {
			return false
		}
		return l.body[x.Block()] || appended(l, x.Call.Args[0], busy)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if appended(l, e, busy) {
				return true
			}
		}
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == a && appended(l, st.Val, busy) {
				return true
			}
		}
	}
	return false
}

// summary: a test for an error that only says that others were found.
func summary(cmp *ssa.BinOp) bool {
	if cmp.Op != token.EQL && cmp.Op != token.NEQ {
		return false
	}
	x, y := cmp.X, cmp.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	s, ok := constString(y)
	if !ok {
		return false
	}
	switch k := loadedField(x); {
	case strings.HasSuffix(k, ".KeywordLocation"):
		return s == ""
	case strings.HasSuffix(k, ".Error"):
		return s == "oneOf failed" || s == "allOf failed"
	}
	return false
}

// --- use

// optional: kinds that are only looked at when strict validation is asked for, for there are too many of them.
var optionalKinds = map[string]bool{"Reply": true, "SecureReply": true, "TransportMessage": true}

func schemaUse(p *Prog, r *Report, v int) {
	pkg := fmt.Sprintf("protocol/v%d", v)
	// only what is the package's own, and the tests for validity, is looked into
	inside := func(f *ssa.Function) bool {
		if fnPkgPath(f) != modPath+"/"+pkg || fname(f) == pkg+".schemaValidate" {
			return false
		}
		return f.Object() == nil || !f.Object().Exported() || f.Name() == "IsValidJSON"
	}
	for _, kind := range protocolKinds {
		c := p.pkgConst("protocol", protocolConst(kind, v))
		if c == nil {
			continue
		}
		is := constant.StringVal(c)
		if f := r.anchor("valid", "(*"+pkg+"."+kind+").IsValidJSON"); f != nil {
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: inside}
			r.judge("valid", t, f, paramTerms(f, "m", "data"), "valid by its own schema", func(o *pathOf) string {
				if o.out == "succeed" {
					return notValid(o, kind, is, "data")
				}
				if o.out != "fail" {
					return "can give " + o.out
				}
				return wronglyInvalid(o, kind, is, "data")
			})
		}
		if f := r.anchor("sent", "(*"+pkg+"."+kind+").JSON"); f != nil {
			t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: inside}
			r.judge("sent", t, f, paramTerms(f, "m"), "gives JSON that is valid", func(o *pathOf) string {
				const data = "Marshal(m)"
				if o.out == "fail" {
					if o.is(data+"#1==nil") == no {
						return ""
					}
					return wronglyInvalid(o, kind, is, data)
				}
				switch {
				case o.out != "succeed":
					return "can give " + o.out
				case o.given != data:
					return "can give " + o.given
				}
				return firstOf(o.onlyWhen(data+"#1==nil"), notValid(o, kind, is, data))
			})
		}
	}
	n := 0
	for _, f := range p.Funcs {
		res := f.Signature.Results()
		if fnPkgPath(f) != modPath+"/"+pkg || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || res.Len() != 2 || !decodesIn(p, f, inside, map[*ssa.Function]bool{}) {
			continue
		}
		kind := typeBase(res.At(0).Type())
		c := p.pkgConst("protocol", protocolConst(kind, v))
		if c == nil {
			continue
		}
		is := constant.StringVal(c)
		n++
		from := ""
		names := make([]string, len(f.Params))
		for i, q := range f.Params {
			names[i] = q.Name()
			if k := typeBase(q.Type()); strings.HasPrefix(k, "Secure") && !strings.HasPrefix(kind, "Secure") {
				if fc := p.pkgConst("protocol", protocolConst(k, v)); fc != nil {
					from = q.Name() + ".Version()==" + constant.StringVal(fc)
				}
			}
		}
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: inside}
		r.judge("decoded", t, f, paramTerms(f, names...), "a "+kind+" is decoded from what is valid", func(o *pathOf) string {
			if o.out == "fail" {
				return ""
			}
			data, target := "", ""
			for h := range o.have {
				if x, ok := strings.CutPrefix(h, "if nil==Unmarshal("); ok {
					x, ok = strings.CutSuffix(x, ") true")
					i := strings.Index(x, " &")
					if !ok || i < 0 {
						return "can take what could not be decoded"
					}
					data, target = x[:i], x[i+1:]
				}
			}
			switch {
			case data == "":
				// made by another that is looked at, or without decoding
				if o.out == "succeed" || !strings.HasPrefix(o.out, "New") {
					return "can give what was not decoded"
				}
				return ""
			case o.out != "succeed":
				return "can give " + o.out
			case !strings.HasPrefix(target, o.given) || !strings.HasPrefix(o.given, "&"+kind):
				return "can give something else than what was decoded"
			case from != "" && o.is(from) != yes:
				return "can take another version than " + from
			case strings.Contains(data, "RemoteSignRequest("):
				// the signer is trusted to make requests
				return ""
			}
			return notValid(o, kind, is, data)
		})
	}
	r.need("decoded", "constructors of "+pkg+" that decode", n, 6)
}

// decodesIn: a function decodes JSON, or what is looked into does.
func decodesIn(p *Prog, f *ssa.Function, inside func(*ssa.Function) bool, busy map[*ssa.Function]bool) bool {
	if busy[f] {
		return false
	}
	busy[f] = true
	for _, c := range callsOf(f) {
		if cname(c.Common()) == "encoding/json.Unmarshal" {
			return true
		}
		if g := c.Common().StaticCallee(); g != nil && inside(g) && decodesIn(p, g, inside, busy) {
			return true
		}
	}
	return false
}

// notValid: why data may not have been found to be valid.
func notValid(o *pathOf, kind, version, data string) string {
	sv := fmt.Sprintf("schemaValidate(%s %s)", version, data)
	if optionalKinds[kind] && o.is("ClientStrictValidation") == no {
		return ""
	}
	if o.is(sv+"#2==nil") != yes || known(o.is("empty("+sv+"#1)"), o.is(sv)) != yes {
		return "can take what was not found valid by " + sv
	}
	return ""
}

func wronglyInvalid(o *pathOf, kind, version, data string) string {
	sv := fmt.Sprintf("schemaValidate(%s %s)", version, data)
	if optionalKinds[kind] && o.is("ClientStrictValidation") != yes {
		return "can refuse what it was not asked to look at"
	}
	if o.is(sv+"#2==nil") != no && known(o.is("empty("+sv+"#1)"), o.is(sv)) != no {
		return "can refuse what is valid"
	}
	return ""
}

// --- others

func otherSchemas(p *Prog, r *Report) {
	const rule = "found"
	n := 0
	for _, f := range p.Funcs {
		for _, c := range callsOf(f) {
			if !strings.HasSuffix(cname(c.Common()), "internal/util.ValidateSchemaFromFS") {
				continue
			}
			path, ok := constString(c.Common().Args[0])
			if !ok {
				continue
			}
			n++
			raw, err := os.ReadFile(filepath.Join(p.Root, "internal/fs", path))
			var s schemaNode
			if err == nil {
				err = json.Unmarshal(raw, &s)
			}
			r.at(rule, c, fname(f)+" looks at the schema "+path, err == nil, fmt.Sprint(err))
		}
	}
	r.need(rule, "uses of other schemas", n, 3)
	for _, name := range []string{"aagent/machine.ValidateDir", "providers/discovery/inventory.ValidateInventory", "(*generators/ddl.Generator).ValidateJSON"} {
		f := r.anchor(rule, name)
		if f == nil {
			continue
		}
		names := make([]string, len(f.Params))
		for i, q := range f.Params {
			names[i] = q.Name()
		}
		t := &interp{p: p, terms: true, conds: true, compare: true, turns: 1, inline: nothing}
		r.judge(rule, t, f, paramTerms(f, names...), "what is found is given", func(o *pathOf) string {
			if o.out == "fail" {
				return ""
			}
			decoded, v := false, ""
			for h := range o.have {
				if strings.HasPrefix(h, "if nil==") && strings.HasSuffix(h, " false") {
					return "can succeed though something did not"
				}
				decoded = decoded || strings.HasPrefix(h, "if nil==Unmarshal(")
				if x, ok := strings.CutPrefix(h, "if nil==ValidateSchemaFromFS("); ok {
					v, _, _ = strings.Cut("ValidateSchemaFromFS("+x, "#1 ")
				}
			}
			if x, ok := strings.CutSuffix(o.out, "#1"); ok {
				v = x
			}
			switch {
			case !decoded || !strings.HasPrefix(v, "ValidateSchemaFromFS(") || strings.HasSuffix(v, " nil)"):
				return "can succeed without validating"
			case o.given != v && o.is("empty("+v+")") != yes:
				return "can lose what was found"
			}
			return ""
		})
	}
}
