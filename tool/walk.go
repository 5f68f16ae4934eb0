package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

func tick() ast.Stmt { return &ast.ExprStmt{X: call(sel("zzrt", "T"))} }

func (r *rewriter) funcDecl(d *ast.FuncDecl) {
	d.Doc = nil
	if d.Recv != nil {
		r.walk(reflect.ValueOf(d.Recv))
	}
	r.walk(reflect.ValueOf(d.Type))
	if d.Body != nil {
		r.block(d.Body, true)
	}
}

func (r *rewriter) block(b *ast.BlockStmt, head bool) {
	b.List = r.stmts(b.List)
	if head && len(b.List) == 0 {
		b.List = []ast.Stmt{tick()}
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(l))
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			out = append(out, tick())
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	n := r.expr(s)
	if n == nil {
		return nil
	}
	return n.(ast.Stmt)
}

func (r *rewriter) ex(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e).(ast.Expr)
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.isBuiltin(p.X, name)
	}
	i, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := r.info.Uses[i].(*types.Builtin)
	return ok && (name == "" || b.Name() == name)
}

// expr rewrites a node and everything below it; it returns the replacement.
func (r *rewriter) expr(n ast.Node) ast.Node {
	switch x := n.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.walk(reflect.ValueOf(x.Type))
		r.block(x.Body, true)
		return x
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
				s := replaced[pn.Imported().Path()]
				if s == "" {
					return x
				}
				if r.simNames[s]["Ptr"+x.Sel.Name] {
					r.usesSim[s] = true
					return &ast.ParenExpr{X: &ast.StarExpr{X: call(sel("zz"+s, "Ptr"+x.Sel.Name))}}
				}
				if r.simNames[s][x.Sel.Name] {
					r.usesSim[s] = true
					return &ast.SelectorExpr{X: &ast.Ident{NamePos: i.NamePos, Name: "zz" + s}, Sel: x.Sel}
				}
				return x
			}
		}
		x.X = r.ex(x.X)
		return x
	case *ast.UnaryExpr:
		x.X = r.ex(x.X)
		if x.Op == token.ARROW {
			return call(sel("zzrt", "Recv"), x.X)
		}
		return x
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			if r.isBuiltin(x.Fun, "close") {
				return call(sel("zzrt", "Close"), r.ex(x.Args[0]))
			}
			if r.isBuiltin(x.Fun, "len") {
				if _, ok := under(r.typ(x.Args[0])).(*types.Chan); ok {
					return call(sel("zzrt", "Len"), r.ex(x.Args[0]))
				}
			}
		}
		r.walk(reflect.ValueOf(x))
		return x
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := arrow(x.Rhs[0]); u != nil {
				for i := range x.Lhs {
					x.Lhs[i] = r.ex(x.Lhs[i])
				}
				x.Rhs[0] = call(sel("zzrt", "Recv2"), r.ex(u.X))
				return x
			}
		}
		r.walk(reflect.ValueOf(x))
		return x
	case *ast.ValueSpec:
		x.Doc, x.Comment = nil, nil
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := arrow(x.Values[0]); u != nil {
				x.Type = r.ex(x.Type)
				x.Values[0] = call(sel("zzrt", "Recv2"), r.ex(u.X))
				return x
			}
		}
		r.walk(reflect.ValueOf(x))
		return x
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(sel("zzrt", "Send"), r.ex(x.Chan)), r.ex(x.Value))}
	case *ast.BlockStmt:
		r.block(x, false)
		return x
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = r.ex(x.List[i])
		}
		x.Body = r.stmts(x.Body)
		return x
	case *ast.ForStmt:
		if x.Init != nil {
			x.Init = r.stmt(x.Init)
		}
		x.Cond = r.ex(x.Cond)
		if x.Post != nil {
			x.Post = r.stmt(x.Post)
		}
		r.block(x.Body, true)
		return x
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.GenDecl:
		x.Doc = nil
		r.walk(reflect.ValueOf(x))
		return x
	}
	r.walk(reflect.ValueOf(n))
	return n
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// walk rewrites the children of the node v points to.
func (r *rewriter) walk(v reflect.Value) {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Type() {
		case reflect.TypeOf((*ast.Object)(nil)), reflect.TypeOf((*ast.Scope)(nil)), reflect.TypeOf((*ast.CommentGroup)(nil)):
			if f.CanSet() && f.Type() == reflect.TypeOf((*ast.CommentGroup)(nil)) {
				f.Set(reflect.Zero(f.Type()))
			}
			continue
		}
		switch f.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !f.Type().Implements(nodeType) || f.IsNil() {
				continue
			}
			nn := r.expr(f.Interface().(ast.Node))
			f.Set(reflect.ValueOf(nn))
		case reflect.Slice:
			if !f.Type().Elem().Implements(nodeType) {
				continue
			}
			for j := 0; j < f.Len(); j++ {
				e := f.Index(j)
				if e.IsNil() {
					continue
				}
				nn := r.expr(e.Interface().(ast.Node))
				e.Set(reflect.ValueOf(nn))
			}
		}
	}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Node {
	t := under(r.typ(x.X))
	kind := ""
	switch t.(type) {
	case *types.Map:
		kind = "MapIter"
	case *types.Chan:
		kind = "ChanIter"
	}
	if kind == "" {
		x.Key, x.Value = r.ex(x.Key), r.ex(x.Value)
		x.X = r.ex(x.X)
		r.block(x.Body, true)
		return x
	}
	src := r.ex(x.X)
	r.block(x.Body, true)
	it := r.tmp("it")
	lhs := []ast.Expr{id(it)}
	var args []ast.Expr
	vars := []ast.Expr{x.Key}
	if kind == "MapIter" {
		vars = append(vars, x.Value)
	}
	for _, v := range vars {
		if blank(v) {
			lhs = append(lhs, id("_"))
			args = append(args, id("nil"))
			continue
		}
		if x.Tok == token.DEFINE {
			lhs = append(lhs, v)
			args = append(args, &ast.UnaryExpr{Op: token.AND, X: v})
		} else {
			lhs = append(lhs, id("_"))
			args = append(args, &ast.UnaryExpr{Op: token.AND, X: r.ex(v)})
		}
	}
	return &ast.ForStmt{
		For:  x.For,
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel("zzrt", kind), src)}},
		Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, args...),
		Body: x.Body,
	}
}

func (r *rewriter) inlineable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return false
	}
	return tv.Value != nil || tv.IsNil()
}

// packageFunc reports whether e names a function declared at package level.
func (r *rewriter) packageFunc(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.packageFunc(x.X)
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[i].(*types.PkgName); ok {
				_, ok := r.info.Uses[x.Sel].(*types.Func)
				return ok
			}
		}
	case *ast.IndexExpr:
		return r.packageFunc(x.X)
	case *ast.IndexListExpr:
		return r.packageFunc(x.X)
	}
	return false
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Node {
	c := x.Call
	var pre []ast.Stmt
	inner := &ast.CallExpr{Ellipsis: c.Ellipsis}
	bind := func(e ast.Expr) ast.Expr {
		inl := r.inlineable(e)
		n := r.ex(e)
		if inl {
			return n
		}
		v := r.tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{n}})
		return id(v)
	}
	builtin := r.isBuiltin(c.Fun, "")
	isClose := r.isBuiltin(c.Fun, "close")
	switch {
	case isClose:
		inner.Fun = sel("zzrt", "Close")
	case builtin:
		inner.Fun = c.Fun
	case r.packageFunc(c.Fun):
		inner.Fun = r.ex(c.Fun)
	default:
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			// go func() { ... }()
			f := r.ex(fl)
			return &ast.ExprStmt{X: call(sel("zzrt", "Go"), f)}
		}
		inner.Fun = bind(c.Fun)
	}
	if len(c.Args) == 1 {
		if _, ok := r.typ(c.Args[0]).(*types.Tuple); ok {
			inner.Args = []ast.Expr{r.ex(c.Args[0])}
			c.Args = nil
		}
	}
	for _, a := range c.Args {
		inner.Args = append(inner.Args, bind(a))
	}
	if inner.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: call(sel("zzrt", "Go"), &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) ast.Node {
	if len(x.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(sel("zzrt", "Select"), id("false"))}}}}
	}
	var lhs, rhs, args []ast.Expr
	hasDefault := false
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDefault = true
		}
	}
	args = append(args, id("false"))
	if hasDefault {
		args[0] = id("true")
	}
	sw := &ast.SwitchStmt{Switch: x.Select, Body: &ast.BlockStmt{}}
	k := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		out := &ast.CaseClause{Case: cc.Case}
		var body []ast.Stmt
		if cc.Comm == nil {
			out.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, out)
			continue
		}
		v := r.tmp("s")
		lhs = append(lhs, id(v))
		args = append(args, id(v))
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(sel("zzrt", "SendCase"), r.ex(s.Chan)), r.ex(s.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, call(sel("zzrt", "RecvCase"), r.ex(arrow(s.X).X)))
		case *ast.AssignStmt:
			rhs = append(rhs, call(sel("zzrt", "RecvCase"), r.ex(arrow(s.Rhs[0]).X)))
			a := &ast.AssignStmt{Tok: s.Tok}
			for i, l := range s.Lhs {
				a.Lhs = append(a.Lhs, r.ex(l))
				f := "V"
				if i == 1 {
					f = "Ok"
				}
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: id(v), Sel: id(f)})
			}
			body = append(body, a)
		}
		out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: itoa(k)}}
		k++
		out.Body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, out)
	}
	if !hasDefault {
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(sel("zzrt", "Select"), args...)
	return sw
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}
