From ed464cff01a39e55d6581b8fe2ec3a6a5cf7582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 01/48] fix: give blank parameters and results a usable name

Decorators pass parameters and assign results by name, so a method with a
parameter or result called _ produced code that does not compile.
---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 1fa0eee..c49ddd0 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -128,7 +128,7 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 // NewParam returns Param struct
 func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Param, error) {
 	typ := fi.Type
-	if name == "" || usedNames[name] {
+	if name == "" || name == "_" || usedNames[name] {
 		name = genName(typePrefix(typ), 1, usedNames)
 	}
 
-- 
2.43.0


From 8b9e7cd465322a00a88dde06feab9743284e0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 02/48] fix: keep the tags of struct fields

A struct type without its tags is a different type, decorators of interfaces
with such parameters did not implement the interface.
---
 printer/printer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index c98bf05..7bd388f 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -237,7 +237,12 @@ func (p *Printer) fieldList(fl *ast.FieldList) ([]string, error) {
 			return nil, err
 		}
 
-		params = append(params, strings.Join(names, ", ")+" "+paramType)
+		field := strings.Join(names, ", ") + " " + paramType
+		if param.Tag != nil {
+			field += " " + param.Tag.Value
+		}
+
+		params = append(params, field)
 	}
 
 	return params, nil
-- 
2.43.0


From b572efe081717db18c743c042d55519946624e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 03/48] fix: qualify types inside parentheses and interface
 literals

Both were printed as is, so source package types inside of them were not
prefixed with the package selector in a decorator that goes to another package.
---
 printer/printer.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 7bd388f..b2173de 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -71,6 +71,10 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printGeneric(t)
 	case *ast.IndexListExpr:
 		return p.printGenericList(t)
+	case *ast.ParenExpr:
+		return p.printParen(t)
+	case *ast.InterfaceType:
+		return p.printInterface(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -192,6 +196,37 @@ func (p *Printer) printGenericList(pt *ast.IndexListExpr) (string, error) {
 	return baseStr, nil
 }
 
+func (p *Printer) printParen(pt *ast.ParenExpr) (string, error) {
+	t, err := p.PrintType(pt.X)
+	if err != nil {
+		return "", err
+	}
+
+	return "(" + t + ")", nil
+}
+
+func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
+	if it.Methods == nil || len(it.Methods.List) == 0 {
+		return p.Print(it)
+	}
+
+	elements := []string{}
+	for _, field := range it.Methods.List {
+		element, err := p.PrintType(field.Type)
+		if err != nil {
+			return "", err
+		}
+
+		if _, ok := field.Type.(*ast.FuncType); ok && len(field.Names) > 0 {
+			element = field.Names[0].Name + strings.TrimPrefix(element, "func")
+		}
+
+		elements = append(elements, element)
+	}
+
+	return "interface{\n" + strings.Join(elements, "\n") + "\n}", nil
+}
+
 func (p *Printer) printPointer(pt *ast.StarExpr) (string, error) {
 	pointerTo, err := p.PrintType(pt.X)
 	if err != nil {
-- 
2.43.0


From ded8bdee1ec1e7f42211f9c6f1aaa34b32d67a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 04/48] fix: qualify constants used as array lengths

An array length given by a constant of the source package was printed without
the package selector in a decorator that goes to another package.
---
 printer/printer.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/printer/printer.go b/printer/printer.go
index b2173de..94994f0 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -87,7 +87,7 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 		return "", err
 	}
 
-	l, err := p.Print(a.Len)
+	l, err := p.printArrayLen(a.Len)
 	if err != nil {
 		return "", err
 	}
@@ -95,6 +95,43 @@ func (p *Printer) printArray(a *ast.ArrayType) (string, error) {
 	return "[" + l + "]" + sliceType, nil
 }
 
+// printArrayLen prints the length of an array, constants of the source package are
+// prefixed with the package selector the same way as types are
+func (p *Printer) printArrayLen(node ast.Expr) (string, error) {
+	if node == nil {
+		return "", nil
+	}
+
+	switch l := node.(type) {
+	case *ast.Ident:
+		if len(p.typesPrefix) == 0 {
+			return l.Name, nil
+		}
+		if !l.IsExported() {
+			return "", errors.Wrap(errUnexportedConst, l.Name)
+		}
+		return p.typesPrefix + "." + l.Name, nil
+	case *ast.ParenExpr:
+		x, err := p.printArrayLen(l.X)
+		if err != nil {
+			return "", err
+		}
+		return "(" + x + ")", nil
+	case *ast.BinaryExpr:
+		x, err := p.printArrayLen(l.X)
+		if err != nil {
+			return "", err
+		}
+		y, err := p.printArrayLen(l.Y)
+		if err != nil {
+			return "", err
+		}
+		return x + " " + l.Op.String() + " " + y, nil
+	}
+
+	return p.Print(node)
+}
+
 var chanTypes = map[ast.ChanDir]string{
 	ast.SEND | ast.RECV: "chan ",
 	ast.SEND:            "chan<- ",
@@ -135,7 +172,10 @@ func (p *Printer) printMap(mt *ast.MapType) (string, error) {
 	return "map[" + keyType + "]" + valueType, nil
 }
 
-var errUnexportedType = errors.New("unexported type")
+var (
+	errUnexportedType  = errors.New("unexported type")
+	errUnexportedConst = errors.New("unexported constant")
+)
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
 	for _, ts := range p.types {
-- 
2.43.0


From 8e0a5bf022a4d91d0f273cd41e360b4a33471d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 05/48] fix: do not lose methods of embedded error and
 interface aliases

An embedded error, or an embedded type the package does not declare, was
skipped silently and the decorator lacked methods. Embedded aliases of
interfaces were refused, and an interface embedding itself overflowed the stack.
---
 generator/generator.go | 60 +++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index c94e826..ef558ff 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -150,6 +150,7 @@ type targetProcessInput struct {
 	typesPrefix  string
 	imports      []*ast.ImportSpec
 	genericTypes genericTypes
+	embedding    []string // local types being processed, outermost first
 }
 
 type processOutput struct {
@@ -633,34 +634,61 @@ func mergeMethods(methods, embeddedMethods methodsList) (methodsList, error) {
 	return result, nil
 }
 
-var errNotAnInterface = errors.New("embedded type is not an interface")
+var (
+	errNotAnInterface  = errors.New("embedded type is not an interface")
+	errUnknownEmbedded = errors.New("embedded type is not declared in the package")
+	errEmbeddingCycle  = errors.New("type refers to itself")
+)
 
 func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (methodsList, error) {
-	var embeddedInterface *ast.InterfaceType
-	var genericsTypes genericTypes
 	for _, t := range input.types {
-		if t.Name.Name == i.Name {
-			var ok bool
-			embeddedInterface, ok = t.Type.(*ast.InterfaceType)
-			if ok {
-				genericsTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
-				break
-			}
+		if t.Name.Name != i.Name {
+			continue
+		}
 
-			if !checkInterface {
-				break
+		for _, name := range input.embedding {
+			if name == i.Name {
+				return nil, errors.Wrap(errEmbeddingCycle, i.Name)
+			}
+		}
+		input.embedding = append(input.embedding[:len(input.embedding):len(input.embedding)], i.Name)
+
+		switch embedded := t.Type.(type) {
+		case *ast.InterfaceType:
+			input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
+			return processInterface(embedded, input)
+		case *ast.Ident:
+			if checkInterface {
+				return processIdent(embedded, input, checkInterface)
 			}
+		case *ast.SelectorExpr:
+			if checkInterface {
+				return processSelector(embedded, input)
+			}
+		}
 
-			return nil, errors.Wrap(errNotAnInterface, t.Name.Name)
+		if !checkInterface {
+			return nil, nil
 		}
+
+		return nil, errors.Wrap(errNotAnInterface, t.Name.Name)
+	}
+
+	if !checkInterface {
+		return nil, nil
 	}
 
-	if embeddedInterface == nil {
+	switch i.Name {
+	case "error":
+		return methodsList{"Error": Method{
+			Name:    "Error",
+			Results: ParamsSlice{{Name: "s1", Type: "string"}},
+		}}, nil
+	case "any", "comparable":
 		return nil, nil
 	}
 
-	input.genericTypes = genericsTypes
-	return processInterface(embeddedInterface, input)
+	return nil, errors.Wrap(errUnknownEmbedded, i.Name)
 }
 
 var errUnknownSelector = errors.New("unknown selector")
-- 
2.43.0


From 34dc707f0a27cf077fe8757a9c3afc0961be6224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 06/48] fix: do not look for methods of type arguments

Methods of the type arguments of an embedded generic interface are not part of
the decorator; processing them overflowed the stack for interfaces like
type Node interface { Comparable[Node] }.
---
 generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index ef558ff..331e79f 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -470,7 +470,7 @@ func typeSpecs(f *ast.File) []*ast.TypeSpec {
 
 func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (param genericParam, methods methodsList, err error) {
 	param.Name, err = pr.PrintType(t)
-	if err != nil {
+	if err != nil || !checkInterface {
 		return
 	}
 
-- 
2.43.0


From b1b22c61308d63e1ce1c275eb1295fe0936ff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 07/48] fix: substitute type arguments wherever a type
 parameter is used

Type parameters of embedded generic interfaces were replaced only when a
parameter or a result was of exactly this type, but not in []T or map[string]T.
A type parameter also hides a package level type with the same name.
---
 generator/generator.go |  5 +++--
 generator/generics.go  | 18 ++++++++++++++++++
 printer/printer.go     | 17 +++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 331e79f..b9feb1a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -552,7 +552,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 	methods = make(methodsList, len(it.Methods.List))
 
-	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix)
+	pr := printer.New(targetInput.fileSet, targetInput.types, targetInput.typesPrefix).
+		Replace(buildReplacements(targetInput.genericTypes, targetInput.genericParams))
 
 	for _, field := range it.Methods.List {
 		var embeddedMethods methodsList
@@ -562,7 +563,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.FuncType:
 			var method *Method
 
-			method, err = NewMethod(field.Names[0].Name, field, pr, targetInput.genericTypes, targetInput.genericParams)
+			method, err = NewMethod(field.Names[0].Name, field, pr, nil, nil)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
diff --git a/generator/generics.go b/generator/generics.go
index 7d22c27..9f6c62b 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -165,3 +165,21 @@ func buildGenericParamsString(typeStr string, genericTypes genericTypes, generic
 	}
 	return typeStr
 }
+
+// buildReplacements maps names of the type parameters to the type arguments, or to themselves
+// if there are no arguments
+func buildReplacements(genericTypes genericTypes, genericParams genericParams) map[string]string {
+	replacements := make(map[string]string)
+	i := 0
+	for _, genType := range genericTypes {
+		for _, name := range genType.Names {
+			replacements[name] = name
+			if i < len(genericParams) {
+				replacements[name] = genericParams[i].String()
+			}
+			i++
+		}
+	}
+
+	return replacements
+}
diff --git a/printer/printer.go b/printer/printer.go
index 94994f0..24c811f 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -16,6 +16,8 @@ type Printer struct {
 	types       []*ast.TypeSpec
 	typesPrefix string
 	buf         *bytes.Buffer
+
+	replacements map[string]string
 }
 
 // New returns Printer
@@ -31,6 +33,13 @@ func New(fs *token.FileSet, typeSpecs []*ast.TypeSpec, typesPrefix string) *Prin
 	}
 }
 
+// Replace makes PrintType print the given strings instead of the type identifiers they are keyed
+// by, i.e. type arguments instead of type parameters
+func (p *Printer) Replace(replacements map[string]string) *Printer {
+	p.replacements = replacements
+	return p
+}
+
 // Print prints AST node as is
 func (p *Printer) Print(node ast.Node) (string, error) {
 	if node == nil {
@@ -144,6 +153,10 @@ func (p *Printer) printChan(c *ast.ChanType) (string, error) {
 		return "", err
 	}
 
+	if strings.HasPrefix(valueType, "<-") {
+		valueType = "(" + valueType + ")"
+	}
+
 	return chanTypes[c.Dir] + valueType, nil
 }
 
@@ -178,6 +191,10 @@ var (
 )
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
+	if replacement, ok := p.replacements[i.Name]; ok {
+		return replacement, nil
+	}
+
 	for _, ts := range p.types {
 
 		if i.Name == ts.Name.Name {
-- 
2.43.0


From eb2746a88548acf2556de011f94b077cc743d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 08/48] fix: print every kind of type parameter constraints

Constraints other than identifiers, selectors and their unions, i.e. interface
literals, ~[]byte or generic constraints, were dropped and the generated code
did not compile. Unexported constraints are refused if the decorator goes to
another package.
---
 generator/generator.go |  5 +++++
 generator/generics.go  | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index b9feb1a..a8c09f9 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -239,6 +239,11 @@ func NewGenerator(options Options) (*Generator, error) {
 		return nil, errEmptyInterface
 	}
 
+	ts, _, types := iterateFiles(srcPackageAST, options.InterfaceName)
+	if err := checkConstraints(ts, types, srcPackageAST.Name); err != nil {
+		return nil, err
+	}
+
 	for _, m := range output.methods {
 		if srcPackageAST.Name != "" && []rune(m.Name)[0] == []rune(strings.ToLower(m.Name))[0] {
 			return nil, errors.Wrap(errUnexportedMethod, m.Name)
diff --git a/generator/generics.go b/generator/generics.go
index 9f6c62b..71c2310 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -4,8 +4,14 @@ import (
 	"go/ast"
 	"go/token"
 	"strings"
+
+	"github.com/pkg/errors"
+
+	"github.com/hexdigest/gowrap/printer"
 )
 
+var errUnexportedConstraint = errors.New("unexported type in a constraint")
+
 const (
 	genericSeparator = ", "
 
@@ -127,15 +133,44 @@ func parseGenericType(exprPart ast.Expr, allTypes []*ast.TypeSpec, typesPrefix s
 		if expr.Op == token.TILDE {
 			if id, ok := expr.X.(*ast.Ident); ok {
 				part = "~" + id.Name
+			} else {
+				part = "~" + parseGenericType(expr.X, allTypes, typesPrefix)
 			}
 		}
 	case *ast.BinaryExpr:
 		part = parseBinaryExpr(expr, allTypes, typesPrefix)
+	default:
+		//checkConstraints reports types that can't be printed
+		part, _ = printer.New(token.NewFileSet(), allTypes, typesPrefix).PrintType(expr)
 	}
 
 	return
 }
 
+// checkConstraints returns an error if constraints of the type parameters refer to the unexported
+// types of the source package and the destination file is in another package
+func checkConstraints(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, typesPrefix string) (err error) {
+	if ts.TypeParams == nil || typesPrefix == "" {
+		return nil
+	}
+
+	for _, param := range ts.TypeParams.List {
+		ast.Inspect(param.Type, func(n ast.Node) bool {
+			switch t := n.(type) {
+			case *ast.Ident:
+				if !t.IsExported() && getPrefix(t, allTypes, typesPrefix) != "" {
+					err = errors.Wrap(errUnexportedConstraint, t.Name)
+				}
+			case *ast.SelectorExpr:
+				return false
+			}
+			return true
+		})
+	}
+
+	return err
+}
+
 func getPrefix(t *ast.Ident, allTypes []*ast.TypeSpec, typesPrefix string) (prefix string) {
 	if typesPrefix == "" {
 		return
-- 
2.43.0


From c3f2411ae7cfe62b8eb03b38390f3ae2de7e84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 09/48] fix: ignore source files excluded by build constraints

A type may be declared once per platform, the declaration to use was chosen at
random among all the files.
---
 generator/generator.go | 10 ++++++++--
 pkg/package.go         | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index a8c09f9..32367b1 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -442,8 +442,14 @@ func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 }
 
 func iterateFiles(p *pkg.Package, name string) (selectedType *ast.TypeSpec, imports []*ast.ImportSpec, types []*ast.TypeSpec) {
-	for _, f := range p.Files {
-		if f != nil {
+	names := make([]string, 0, len(p.Files))
+	for name := range p.Files {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, fileName := range names {
+		if f := p.Files[fileName]; f != nil {
 			for _, ts := range typeSpecs(f) {
 				types = append(types, ts)
 				if ts.Name.Name == name {
diff --git a/pkg/package.go b/pkg/package.go
index 73f1548..f9c94eb 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io/fs"
 	"path/filepath"
 
 	"golang.org/x/tools/go/packages"
@@ -37,10 +38,20 @@ func Load(path string) (*packages.Package, error) {
 }
 
 // AST returns package's abstract syntax tree
-func AST(fs *token.FileSet, p *packages.Package) (*Package, error) {
+func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 	dir := Dir(p)
 
-	pkgs, err := parser.ParseDir(fs, dir, nil, parser.DeclarationErrors|parser.ParseComments)
+	ignored := make(map[string]bool, len(p.IgnoredFiles))
+	for _, path := range p.IgnoredFiles {
+		ignored[filepath.Base(path)] = true
+	}
+
+	//files excluded by the build constraints may declare the same types in a different way
+	filter := func(fi fs.FileInfo) bool {
+		return !ignored[fi.Name()]
+	}
+
+	pkgs, err := parser.ParseDir(fset, dir, filter, parser.DeclarationErrors|parser.ParseComments)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 61a718e1e20f18399e606e578fefd093576a4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 10/48] fix: carry imports needed by methods of embedded
 interfaces

Only imports of the file with the target interface were used, so types of the
methods embedded from other files and packages were resolved by guessing, with
wrong results for renamed imports and packages with the same name. Packages
are also printed with the selector they are imported with.
---
 generator/generator.go | 115 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 108 insertions(+), 7 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 32367b1..d42812d 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -151,12 +151,39 @@ type targetProcessInput struct {
 	imports      []*ast.ImportSpec
 	genericTypes genericTypes
 	embedding    []string // local types being processed, outermost first
+	used         *usedImports
 }
 
 type processOutput struct {
 	genericTypes genericTypes
 	methods      methodsList
 	imports      []*ast.ImportSpec
+	used         usedImports
+}
+
+// usedImports are imports that the processed methods refer to, they may come from files other than
+// the one with the target declaration
+type usedImports []*ast.ImportSpec
+
+func (u *usedImports) add(specs ...*ast.ImportSpec) {
+	if u != nil {
+		*u = append(*u, specs...)
+	}
+}
+
+// addSelectors adds imports of the packages selected in the node
+func (u *usedImports) addSelectors(node ast.Node, input targetProcessInput) {
+	ast.Inspect(node, func(n ast.Node) bool {
+		if se, ok := n.(*ast.SelectorExpr); ok {
+			if ident, ok := se.X.(*ast.Ident); ok {
+				if spec := findImportSpec(ident.Name, input.imports, input.currentPackage); spec != nil {
+					u.add(spec)
+				}
+			}
+		}
+
+		return true
+	})
 }
 
 var errEmptyInterface = errors.New("interface has no methods")
@@ -251,6 +278,7 @@ func NewGenerator(options Options) (*Generator, error) {
 	}
 
 	options.Imports = append(options.Imports, makeImports(output.imports)...)
+	options.Imports = appendMissing(options.Imports, makeImports(output.used)...)
 
 	genericTypes, genericParams := output.genericTypes.buildVars()
 
@@ -281,6 +309,23 @@ func makeImports(imports []*ast.ImportSpec) []string {
 	return result
 }
 
+// appendMissing appends imports that are not in the list yet
+func appendMissing(list []string, imports ...string) []string {
+	present := make(map[string]bool, len(list))
+	for _, i := range list {
+		present[i] = true
+	}
+
+	for _, i := range imports {
+		if !present[i] {
+			present[i] = true
+			list = append(list, i)
+		}
+	}
+
+	return list
+}
+
 func loadDestinationPackage(path string) (*packages.Package, error) {
 	dstPackage, err := pkg.Load(path)
 	if err != nil {
@@ -361,6 +406,7 @@ func findTarget(input processInput) (output processOutput, err error) {
 		typesPrefix:  input.astPackage.Name,
 		imports:      output.imports,
 		genericTypes: output.genericTypes,
+		used:         &output.used,
 	})
 	if err != nil {
 		return processOutput{}, err
@@ -382,10 +428,21 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 			return
 		}
 		srcPackagePath := findSourcePackage(ident, input.imports)
+		if srcPackagePath == "" && input.currentPackage != nil {
+			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
+			if err != nil {
+				return nil, err
+			}
+		}
 
-		return getMethods(t, srcPackagePath)
+		return getMethods(t, srcPackagePath, input)
 	case *ast.Ident:
 		if t.Obj == nil {
+			//the type can be declared in another file
+			if ts, imports, _ := iterateFiles(input.astPackage, t.Name); ts != nil {
+				input.imports = imports
+				return findMethods(ts, input)
+			}
 			return
 		}
 		if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
@@ -396,7 +453,7 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 	return
 }
 
-func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsList, err error) {
+func getMethods(sel *ast.SelectorExpr, srcPackagePath string, input targetProcessInput) (methods methodsList, err error) {
 	srcPkg, err := pkg.Load(srcPackagePath)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cant load %s package", srcPackagePath)
@@ -408,6 +465,8 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsLi
 		return nil, errors.Wrapf(err, "cant ast %s package", srcPackagePath)
 	}
 
+	usePackageSelector(sel, srcAst, input)
+
 	out, err := findTarget(processInput{
 		fileSet:        fs,
 		currentPackage: srcPkg,
@@ -418,9 +477,20 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string) (methods methodsLi
 		return nil, errors.Wrapf(err, "failed to find target in %s package", srcPackagePath)
 	}
 
+	input.used.add(out.used...)
+
 	return out.methods, nil
 }
 
+// usePackageSelector makes types of the package be printed with the same selector as the one used in
+// the file with the declaration being processed
+func usePackageSelector(sel *ast.SelectorExpr, p *pkg.Package, input targetProcessInput) {
+	if ident, ok := sel.X.(*ast.Ident); ok {
+		p.Name = ident.Name
+		input.used.addSelectors(sel, input)
+	}
+}
+
 func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 	for _, imp := range imports {
 		cleanPath := strings.Trim(imp.Path.Value, "\"")
@@ -567,6 +637,8 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		Replace(buildReplacements(targetInput.genericTypes, targetInput.genericParams))
 
 	for _, field := range it.Methods.List {
+		targetInput.used.addSelectors(field.Type, targetInput)
+
 		var embeddedMethods methodsList
 		var err error
 
@@ -616,6 +688,8 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		return nil, errors.Wrap(err, "failed to import package")
 	}
 
+	usePackageSelector(se, astPkg, input)
+
 	output, err := findTarget(processInput{
 		fileSet:        input.fileSet,
 		currentPackage: p,
@@ -624,6 +698,8 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		genericParams:  input.genericParams,
 	})
 
+	input.used.add(output.used...)
+
 	return output.methods, err
 }
 
@@ -665,6 +741,10 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 		}
 		input.embedding = append(input.embedding[:len(input.embedding):len(input.embedding)], i.Name)
 
+		if input.astPackage != nil {
+			_, input.imports, _ = iterateFiles(input.astPackage, i.Name)
+		}
+
 		switch embedded := t.Type.(type) {
 		case *ast.InterfaceType:
 			input.genericTypes = buildGenericTypesFromSpec(t, input.types, input.typesPrefix)
@@ -706,10 +786,8 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 var errUnknownSelector = errors.New("unknown selector")
 
 func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackage *packages.Package) (string, error) {
-	for _, i := range imports {
-		if i.Name != nil && i.Name.Name == name {
-			return unquote(i.Path.Value), nil
-		}
+	if spec := findImportSpec(name, imports, currentPackage); spec != nil {
+		return unquote(spec.Path.Value), nil
 	}
 
 	for path, pkg := range currentPackage.Imports {
@@ -718,7 +796,30 @@ func findImportPathForName(name string, imports []*ast.ImportSpec, currentPackag
 		}
 	}
 
-	return "", errors.Wrapf(errUnknownSelector, name)
+	return "", errors.Wrap(errUnknownSelector, name)
+}
+
+// findImportSpec returns import of the package which is referred to by the name
+func findImportSpec(name string, imports []*ast.ImportSpec, currentPackage *packages.Package) *ast.ImportSpec {
+	for _, i := range imports {
+		if i.Name != nil && i.Name.Name == name {
+			return i
+		}
+	}
+
+	if currentPackage == nil {
+		return nil
+	}
+
+	for _, i := range imports {
+		if i.Name == nil {
+			if pkg, ok := currentPackage.Imports[unquote(i.Path.Value)]; ok && pkg.Name == name {
+				return i
+			}
+		}
+	}
+
+	return nil
 }
 
 func unquote(s string) string {
-- 
2.43.0


From d4db0f59075e858a40105864aae9e380055836b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 11/48] fix: take only context.Context for a context

Any type named Context, i.e. echo.Context, was treated as context.Context and
decorators that derive contexts did not compile.
---
 generator/generator.go | 18 +++++++++++++++++-
 generator/types.go     | 12 ++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index d42812d..49f7b0b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -482,6 +482,22 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string, input targetProces
 	return out.methods, nil
 }
 
+// isContext returns true if the selector refers to the context.Context
+func (input targetProcessInput) isContext(se *ast.SelectorExpr) bool {
+	ident, ok := se.X.(*ast.Ident)
+	if !ok || !isContextName(se) {
+		return false
+	}
+
+	spec := findImportSpec(ident.Name, input.imports, input.currentPackage)
+	if spec == nil {
+		return ident.Name == "context"
+	}
+
+	path := unquote(spec.Path.Value)
+	return path == "context" || path == "golang.org/x/net/context"
+}
+
 // usePackageSelector makes types of the package be printed with the same selector as the one used in
 // the file with the declaration being processed
 func usePackageSelector(sel *ast.SelectorExpr, p *pkg.Package, input targetProcessInput) {
@@ -646,7 +662,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.FuncType:
 			var method *Method
 
-			method, err = NewMethod(field.Names[0].Name, field, pr, nil, nil)
+			method, err = newMethod(field.Names[0].Name, field, pr, nil, nil, targetInput.isContext)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
diff --git a/generator/types.go b/generator/types.go
index c49ddd0..36c3c33 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -67,6 +67,14 @@ func (p Param) Pass() string {
 
 // NewMethod returns pointer to Signature struct or error
 func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Method, error) {
+	return newMethod(name, fi, printer, genericTypes, genericParams, isContextName)
+}
+
+func isContextName(se *ast.SelectorExpr) bool {
+	return se.Sel.Name == "Context"
+}
+
+func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes genericTypes, genericParams genericParams, isContext func(*ast.SelectorExpr) bool) (*Method, error) {
 	f, ok := fi.Type.(*ast.FuncType)
 	if !ok {
 		return nil, fmt.Errorf("%q is not a method", name)
@@ -98,8 +106,8 @@ func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 
 	if len(f.Params.List) > 0 {
 		if se, ok := f.Params.List[0].Type.(*ast.SelectorExpr); ok {
-			m.AcceptsContext = ok && se.Sel.Name == "Context"
-			usedNames["ctx"] = true
+			m.AcceptsContext = ok && isContext(se)
+			usedNames["ctx"] = m.AcceptsContext
 		}
 	}
 
-- 
2.43.0


From 6bef267fd7a215e5877596323a809f021c7b6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 12/48] fix: make upFirst and downFirst work for any string

They lost or duplicated bytes of strings that are not valid UTF-8 and failed
when the string was shorter than the encoded replacement character.
---
 cmd_generate.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 5ab5220..0bac4a1 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 	"text/template"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/pkg/errors"
@@ -278,17 +279,21 @@ func init() {
 }
 
 func upFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToUpper(v)) + s[len(string(v)):]
-	}
-	return ""
+	return mapFirst(unicode.ToUpper, s)
 }
 
 func downFirst(s string) string {
-	for _, v := range s {
-		return string(unicode.ToLower(v)) + s[len(string(v)):]
+	return mapFirst(unicode.ToLower, s)
+}
+
+// mapFirst applies f to the first character of the string
+func mapFirst(f func(rune) rune, s string) string {
+	v, size := utf8.DecodeRuneInString(s)
+	if v == utf8.RuneError {
+		return s
 	}
-	return ""
+
+	return string(f(v)) + s[size:]
 }
 
 var matchFirstCap = regexp.MustCompile("(.)([A-Z][a-z]+)")
-- 
2.43.0


From a27d27a01640300c446855a84fce60268f9fcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 13/48] fix: print command line errors as they are

Messages with a percent sign were garbled, and gowrap crashed when it was given
no command after --.
---
 cmd/gowrap/gowrap.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/gowrap/gowrap.go b/cmd/gowrap/gowrap.go
index a59d991..139aa47 100644
--- a/cmd/gowrap/gowrap.go
+++ b/cmd/gowrap/gowrap.go
@@ -19,13 +19,6 @@ func init() {
 }
 
 func main() {
-	if len(os.Args) < 2 {
-		if err := gowrap.Usage(os.Stderr); err != nil {
-			die(1, err.Error())
-		}
-		os.Exit(2)
-	}
-
 	flag.CommandLine.Usage = func() {
 		die(2, "Run 'gowrap help' for usage.")
 	}
@@ -33,9 +26,16 @@ func main() {
 	flag.Parse()
 	args := flag.Args()
 
+	if len(args) < 1 {
+		if err := gowrap.Usage(os.Stderr); err != nil {
+			die(1, "%s", err)
+		}
+		os.Exit(2)
+	}
+
 	if args[0] == "help" {
 		if err := help(args[1:], os.Stdout); err != nil {
-			die(2, err.Error())
+			die(2, "%s", err)
 		}
 		return
 	}
@@ -49,7 +49,7 @@ func main() {
 		if _, ok := err.(gowrap.CommandLineError); ok {
 			die(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
 		}
-		die(1, err.Error())
+		die(1, "%s", err)
 	}
 }
 
-- 
2.43.0


From 7a570dc23b6d0822b7253ffd77a0eb3c26ba2f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 14/48] fix: keep http:// template URLs in the go:generate
 instruction

They were taken for local paths and made relative to the output directory.
---
 cmd_generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index 0bac4a1..fdb3ca3 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -172,7 +172,7 @@ func (gc *GenerateCommand) loadTemplate(outputFileDir string) (contents, url str
 		return "", "", errors.Wrap(err, "failed to load template")
 	}
 
-	if !strings.HasPrefix(url, "https://") {
+	if !strings.HasPrefix(url, "https://") && !strings.HasPrefix(url, "http://") {
 		templatePath, err := gc.filepath.Abs(url)
 		if err != nil {
 			return "", "", err
-- 
2.43.0


From 73d598976526c68cd191adbb1853f66935fc2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 15/48] fix: quote arguments of the go:generate instruction

Template variables, local prefixes and paths with spaces, quotes or dollar
signs were split or expanded by go generate.
---
 cmd_generate.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd_generate.go b/cmd_generate.go
index fdb3ca3..f3e94ab 100644
--- a/cmd_generate.go
+++ b/cmd_generate.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"text/template"
 	"unicode"
@@ -256,15 +257,25 @@ func varsToArgs(v vars) string {
 	for _, vf := range v {
 		switch typedValue := vf.value.(type) {
 		case string:
-			ss = append(ss, vf.name+"="+typedValue)
+			ss = append(ss, generateArg(vf.name+"="+typedValue))
 		case bool:
-			ss = append(ss, vf.name)
+			ss = append(ss, generateArg(vf.name))
 		}
 	}
 
 	return " -v " + strings.Join(ss, " -v ")
 }
 
+// generateArg returns the argument in the form in which go generate passes it unchanged to the command
+func generateArg(s string) string {
+	quoted := strconv.Quote(s)
+	if len(quoted) != len(s)+2 || strings.Contains(s, " ") || s == "" {
+		s = quoted
+	}
+
+	return strings.ReplaceAll(s, "$", "${DOLLAR}")
+}
+
 var helperFuncs template.FuncMap
 
 func init() {
@@ -276,6 +287,7 @@ func init() {
 	helperFuncs["downFirst"] = downFirst
 	helperFuncs["replace"] = strings.ReplaceAll
 	helperFuncs["snake"] = toSnakeCase
+	helperFuncs["generateArg"] = generateArg
 }
 
 func upFirst(s string) string {
@@ -312,7 +324,7 @@ const headerTemplate = `// Code generated by gowrap. DO NOT EDIT.
 package {{.Package.Name}}
 
 {{if (not .Options.HeaderVars.DisableGoGenerate)}}
-//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{.Options.HeaderVars.Template}} -o {{.Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l "{{.Options.LocalPrefix}}"
+//{{"go:generate"}} gowrap gen -p {{.SourcePackage.PkgPath}} -i {{.Options.InterfaceName}} -t {{generateArg .Options.HeaderVars.Template}} -o {{generateArg .Options.HeaderVars.OutputFileName}}{{.Options.HeaderVars.VarsArgs}} -l {{replace (printf "%q" .Options.LocalPrefix) "$" "${DOLLAR}"}}
 {{end}}
 import(
 {{range $import := .Options.Imports}}{{$import}}
-- 
2.43.0


From 18a6c34d0d52b3ae32be738a8e59dc8fb1e73e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 16/48] fix: fallback for methods that have no context

The generated code did not compile for a method that returns an error but
takes no context, a result sent before the caller was ready to receive it was
lost, and the goroutine starting implementations leaked after a success.
---
 templates/fallback | 70 +++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/templates/fallback b/templates/fallback
index fbd321c..1de3da3 100644
--- a/templates/fallback
+++ b/templates/fallback
@@ -23,8 +23,10 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
   // {{$method.Name}} implements {{$.Interface.Type}}
   func (_d {{$decorator}}) {{$method.Declaration}} {
       type _resultStruct {{$method.ResultsStruct}}
-      var _ch = make(chan _resultStruct, 0)
+      var _ch = make(chan _resultStruct, len(_d.implementations))
       var _next = make(chan struct{}, len(_d.implementations))
+      var _done = make(chan struct{})
+      defer close(_done)
       {{if $method.ReturnsError}}var _errorsList []string{{end}}
       var _ticker = time.NewTicker(_d.interval)
       defer _ticker.Stop()
@@ -44,63 +46,43 @@ func New{{$decorator}}(interval time.Duration, impls ...{{.Interface.Type}}) {{$
               }
             {{end}}
 
-            {{if $method.AcceptsContext}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                case <-ctx.Done():
-              }
-            {{else}}
-              select {
-                case _ch <- _resultStruct{ {{$method.ResultsNames}} }:
-                default:
-              }
-            {{end}}
+            _ch <- _resultStruct{ {{$method.ResultsNames}} }
           }(_d.implementations[_i])
 
           if _i < len(_d.implementations) - 1 {
             select {
               case <-_next:
               case <-_ticker.C:
+              case <-_done:
+                return
             }
           }
         }
       }()
 
-        {{if $method.AcceptsContext}}
-          for {
-              select {
-              case {{if $method.HasResults}}_res := {{end}} <- _ch:
-                {{- if $method.ReturnsError}}
-                  if _res.err == nil {
-                    {{ $method.ReturnStruct "_res" }}
-                  }
-                  _next <- struct{}{}
-                  _errorsList = append(_errorsList, _res.err.Error())
-                  if len(_errorsList) == len(_d.implementations) {
-                    err =  errors.New(strings.Join(_errorsList, ";"))
-                    return
-                  }
-                {{else}}
-                  {{ $method.ReturnStruct "_res" }}
-                {{end -}}
-              {{if $method.AcceptsContext}}case <-ctx.Done():
-                {{if $method.ReturnsError}}
-                  err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
-                {{end}}
+      for {
+        select {
+          case {{if $method.HasResults}}_res := {{end}} <- _ch:
+            {{- if $method.ReturnsError}}
+              if _res.err == nil {
+                {{ $method.ReturnStruct "_res" }}
+              }
+              _next <- struct{}{}
+              _errorsList = append(_errorsList, _res.err.Error())
+              if len(_errorsList) == len(_d.implementations) {
+                err =  errors.New(strings.Join(_errorsList, ";"))
                 return
-              {{end -}}
               }
-          }
-        {{else}}
-          {{if $method.HasResults}}_res := {{end}} <- _ch
-          {{- if $method.ReturnsError}}
-            if _res.err == nil {
+            {{else}}
               {{ $method.ReturnStruct "_res" }}
-            }
-            _errorsList = append(_errorsList, _res.err.Error())
-          {{else}}
-            {{ $method.ReturnStruct "_res" }}
+            {{end -}}
+          {{if $method.AcceptsContext}}case <-ctx.Done():
+            {{if $method.ReturnsError}}
+              err = fmt.Errorf("%w: %s", ctx.Err(), strings.Join(_errorsList, ";"))
+            {{end}}
+            return
           {{end -}}
-        {{end}}
+        }
+      }
   }
 {{end}}
-- 
2.43.0


From 012365ac114a01a2b9c64997dc11b72c5a86621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 17/48] fix: elasticapm for methods without a context and for a
 custom decorator name

Methods that take no context were left out, so the decorator did not implement
the interface, and -v DecoratorName=... declared the same type twice.
---
 templates/elasticapm | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index c29f78a..1422325 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -4,7 +4,7 @@ import (
 )
 
 {{ $decorator := (or .Vars.DecoratorName (printf "%sAPMTracing" .Interface.Name)) }}
-{{ $decorator_option := (or .Vars.DecoratorName (printf "%sAPMTracingOption" .Interface.Name)) }}
+{{ $decorator_option := (printf "%sOption" $decorator) }}
 {{ $component := (or .Vars.ComponentName (printf "%s" (down .Interface.Name))) }}
 
 // {{$decorator}} implements {{.Interface.Type}} interface with all methods wrapped
@@ -57,7 +57,6 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
 }
 
 {{range $method := .Interface.Methods}}
-  {{if $method.AcceptsContext}}
     {{ $span_name := (printf "%s.%s" $component $method.Name) }}
     // {{$method.Name}} implements {{$.Interface.Type}}
     func (_d {{$decorator}}) {{$method.Declaration}} {
@@ -79,5 +78,4 @@ func New{{$decorator}}(base {{.Interface.Type}}, opts ...{{$decorator}}Option) {
         {{ end }}
         {{$method.Pass "_d.base."}}
     }
-  {{end}}
 {{end}}
-- 
2.43.0


From b85186db9f0c4a3aa5f5afac96863be4414f714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 18/48] fix: elasticapm labels of dropped spans

With labels enabled every call without a sampled transaction in the context
panicked on the missing span data.
---
 templates/elasticapm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates/elasticapm b/templates/elasticapm
index 1422325..092c963 100644
--- a/templates/elasticapm
+++ b/templates/elasticapm
@@ -23,7 +23,9 @@ type {{$decorator_option}} func (v *{{$decorator}})
 func {{$decorator}}WithUsingSetLabel() {{$decorator_option}} {
 	return func(v *{{$decorator}}) {
 		v.setLabel = func(span *apm.Span, key string, value interface{}) {
-			span.SpanData.Context.SetLabel(key, value)
+			if !span.Dropped() {
+				span.SpanData.Context.SetLabel(key, value)
+			}
 		}
 	}
 }
-- 
2.43.0


From e5dceeb4597d777d0d516e96dcb09622a50d4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 19/48] fix: do not drop methods of embedded interface literals
 and parenthesized embeds

---
 generator/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 49f7b0b..09ce391 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -658,7 +658,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		var embeddedMethods methodsList
 		var err error
 
-		switch v := field.Type.(type) {
+		switch v := ast.Unparen(field.Type).(type) {
 		case *ast.FuncType:
 			var method *Method
 
@@ -668,6 +668,9 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 				continue
 			}
 
+		case *ast.InterfaceType:
+			embeddedMethods, err = processInterface(v, targetInput)
+
 		default:
 			_, embeddedMethods, err = processEmbedded(v, pr, targetInput, true)
 		}
-- 
2.43.0


From 327854b88cd9b22c0f559477677ec389b05056a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 20/48] fix: name unnamed parameters of types with non-ASCII
 names

---
 generator/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index 36c3c33..7e30f57 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"strings"
+	"unicode/utf8"
 )
 
 type typePrinter interface {
@@ -220,7 +221,8 @@ func typePrefix(e ast.Expr) string {
 	case *ast.FuncType:
 		return "f"
 	case *ast.Ident:
-		return strings.ToLower(t.Name[0:1])
+		_, size := utf8.DecodeRuneInString(t.Name)
+		return strings.ToLower(t.Name[:size])
 	}
 
 	return "p"
-- 
2.43.0


From 9a621b9518ac2bdca4312ef314ec266a50e71d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 21/48] fix: name imports of packages with names that differ
 from their paths

---
 generator/generator.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 09ce391..bf90bc4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -6,10 +6,13 @@ import (
 	"go/ast"
 	"go/token"
 	"io"
+	"path"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/pkg/errors"
 	"golang.org/x/text/cases"
@@ -277,7 +280,7 @@ func NewGenerator(options Options) (*Generator, error) {
 		}
 	}
 
-	options.Imports = append(options.Imports, makeImports(output.imports)...)
+	options.Imports = append(options.Imports, makeImports(nameImports(output.imports, srcPackage))...)
 	options.Imports = appendMissing(options.Imports, makeImports(output.used)...)
 
 	genericTypes, genericParams := output.genericTypes.buildVars()
@@ -296,6 +299,41 @@ func NewGenerator(options Options) (*Generator, error) {
 	}, nil
 }
 
+// nameImports gives explicit names to the imports of the packages whose names can't be derived from
+// their paths, otherwise it's impossible to tell if such imports are used
+func nameImports(imports []*ast.ImportSpec, p *packages.Package) []*ast.ImportSpec {
+	result := make([]*ast.ImportSpec, len(imports))
+	for i, im := range imports {
+		result[i] = im
+
+		imported := p.Imports[unquote(im.Path.Value)]
+		if im.Name != nil || imported == nil || imported.Name == "" || imported.Name == assumedName(imported.PkgPath) {
+			continue
+		}
+
+		result[i] = &ast.ImportSpec{Name: ast.NewIdent(imported.Name), Path: im.Path}
+	}
+
+	return result
+}
+
+// assumedName returns a package name that goimports derives from the import path
+func assumedName(importPath string) string {
+	base := path.Base(importPath)
+	if strings.HasPrefix(base, "v") {
+		if _, err := strconv.Atoi(base[1:]); err == nil && path.Dir(importPath) != "." {
+			base = path.Base(path.Dir(importPath))
+		}
+	}
+
+	base = strings.TrimPrefix(base, "go-")
+	if i := strings.IndexFunc(base, func(r rune) bool { return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) }); i >= 0 {
+		base = base[:i]
+	}
+
+	return base
+}
+
 func makeImports(imports []*ast.ImportSpec) []string {
 	result := make([]string, len(imports))
 	for i, im := range imports {
-- 
2.43.0


From 86474224e7922b214bb70e241ba0f806808cba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 22/48] fix: do not repeat named imports of the source file and
 the template

---
 generator/generator.go | 50 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index bf90bc4..3249670 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/parser"
 	"go/token"
 	"io"
 	"path"
@@ -419,7 +420,7 @@ func (g Generator) Generate(w io.Writer) error {
 	}
 
 	imports.LocalPrefix = g.localPrefix
-	processedSource, err := imports.Process(g.Options.OutputFile, buf.Bytes(), nil)
+	processedSource, err := imports.Process(g.Options.OutputFile, removeDuplicateImports(buf.Bytes()), nil)
 	if err != nil {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
@@ -428,6 +429,53 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
+// removeDuplicateImports removes named imports that are present in both the header and the body,
+// the unnamed ones are handled by imports.Process
+func removeDuplicateImports(source []byte) []byte {
+	fs := token.NewFileSet()
+
+	f, err := parser.ParseFile(fs, "", source, parser.ImportsOnly)
+	if err != nil {
+		return source //imports.Process reports an error
+	}
+
+	var (
+		result = append([]byte(nil), source...)
+		seen   = make(map[string]bool)
+	)
+
+	for _, decl := range f.Decls {
+		gd, ok := decl.(*ast.GenDecl)
+		if !ok {
+			continue
+		}
+
+		for _, spec := range gd.Specs {
+			im, ok := spec.(*ast.ImportSpec)
+			if !ok || im.Name == nil {
+				continue
+			}
+
+			key := im.Name.Name + " " + im.Path.Value
+			if !seen[key] {
+				seen[key] = true
+				continue
+			}
+
+			var node ast.Node = im
+			if !gd.Lparen.IsValid() {
+				node = gd
+			}
+
+			for i := fs.Position(node.Pos()).Offset; i < fs.Position(node.End()).Offset; i++ {
+				result[i] = ' '
+			}
+		}
+	}
+
+	return result
+}
+
 var errTargetNotFound = errors.New("target declaration not found")
 
 func findTarget(input processInput) (output processOutput, err error) {
-- 
2.43.0


From aa7cb46023b1702be2ccc4d75074fbcc87080877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 23/48] fix: generated names do not take names declared by
 other params and results

---
 generator/types.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/generator/types.go b/generator/types.go
index 7e30f57..b76bf33 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -112,13 +112,26 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 		}
 	}
 
+	//Generated names must not take the names which are given to other params and results
+	declaredNames := map[string]bool{}
+	for _, fields := range []*ast.FieldList{f.Params, f.Results} {
+		if fields == nil {
+			continue
+		}
+		for _, field := range fields.List {
+			for _, ident := range field.Names {
+				declaredNames[ident.Name] = true
+			}
+		}
+	}
+
 	var err error
 
-	m.Params, err = makeParams(f.Params, usedNames, printer, genericTypes, genericParams)
+	m.Params, err = makeParams(f.Params, usedNames, declaredNames, printer, genericTypes, genericParams)
 	if err != nil {
 		return nil, err
 	}
-	m.Results, err = makeParams(f.Results, usedNames, printer, genericTypes, genericParams)
+	m.Results, err = makeParams(f.Results, usedNames, declaredNames, printer, genericTypes, genericParams)
 	if err != nil {
 		return nil, err
 	}
@@ -173,7 +186,7 @@ func NewParam(name string, fi *ast.Field, usedNames map[string]bool, printer typ
 	return p, nil
 }
 
-func makeParams(params *ast.FieldList, usedNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (ParamsSlice, error) {
+func makeParams(params *ast.FieldList, usedNames, declaredNames map[string]bool, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (ParamsSlice, error) {
 	if params == nil {
 		return nil, nil
 	}
@@ -183,14 +196,19 @@ func makeParams(params *ast.FieldList, usedNames map[string]bool, printer typePr
 		//for anonymous parameters we generate params and results names
 		//based on their type
 		if p.Names == nil {
-			param, err := NewParam("", p, usedNames, printer, genericTypes, genericParams)
+			name := genName(typePrefix(p.Type), 1, usedNames, declaredNames)
+			param, err := NewParam(name, p, usedNames, printer, genericTypes, genericParams)
 			if err != nil {
 				return nil, err
 			}
 			result = append(result, *param)
 		} else {
 			for _, ident := range p.Names {
-				param, err := NewParam(ident.Name, p, usedNames, printer, genericTypes, genericParams)
+				name := ident.Name
+				if name == "_" || usedNames[name] {
+					name = genName(typePrefix(p.Type), 1, usedNames, declaredNames)
+				}
+				param, err := NewParam(name, p, usedNames, printer, genericTypes, genericParams)
 				if err != nil {
 					return nil, err
 				}
@@ -228,10 +246,12 @@ func typePrefix(e ast.Expr) string {
 	return "p"
 }
 
-func genName(prefix string, n int, usedNames map[string]bool) string {
+func genName(prefix string, n int, takenNames ...map[string]bool) string {
 	name := fmt.Sprintf("%s%d", prefix, n)
-	if usedNames[name] {
-		return genName(prefix, n+1, usedNames)
+	for _, names := range takenNames {
+		if names[name] {
+			return genName(prefix, n+1, takenNames...)
+		}
 	}
 
 	return name
-- 
2.43.0


From c2e7cb687c89c9a97d22a4d2ca4934ee31fa8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 24/48] fix: empty parenthesized result lists do not cause a
 panic

---
 generator/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/types.go b/generator/types.go
index b76bf33..efbe8cb 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -99,7 +99,7 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 	usedNames := map[string]bool{}
 
 	//Always name the last return parameter as an "err" if it's of type "error"
-	if f.Results != nil {
+	if f.Results != nil && len(f.Results.List) > 0 {
 		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
 		m.ReturnsError = ok && ident.Name == "error"
 		usedNames["err"] = true
-- 
2.43.0


From 2f14184b32302c9b1145946dc1234a021f599be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 25/48] fix: recognize import paths written as raw strings

---
 generator/generator.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 3249670..a825364 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -342,7 +342,11 @@ func makeImports(imports []*ast.ImportSpec) []string {
 		if im.Name != nil {
 			name = im.Name.Name
 		}
-		result[i] = name + " " + im.Path.Value
+		importPath := im.Path.Value
+		if strings.HasPrefix(importPath, "`") {
+			importPath = strconv.Quote(unquote(importPath))
+		}
+		result[i] = name + " " + importPath
 	}
 
 	return result
@@ -456,7 +460,7 @@ func removeDuplicateImports(source []byte) []byte {
 				continue
 			}
 
-			key := im.Name.Name + " " + im.Path.Value
+			key := im.Name.Name + " " + unquote(im.Path.Value)
 			if !seen[key] {
 				seen[key] = true
 				continue
@@ -595,7 +599,7 @@ func usePackageSelector(sel *ast.SelectorExpr, p *pkg.Package, input targetProce
 
 func findSourcePackage(ident *ast.Ident, imports []*ast.ImportSpec) string {
 	for _, imp := range imports {
-		cleanPath := strings.Trim(imp.Path.Value, "\"")
+		cleanPath := unquote(imp.Path.Value)
 		if imp.Name != nil {
 			if ident.Name == imp.Name.Name {
 				return cleanPath
@@ -928,6 +932,10 @@ func findImportSpec(name string, imports []*ast.ImportSpec, currentPackage *pack
 }
 
 func unquote(s string) string {
+	if s[0] == '`' {
+		return strings.Trim(s, "`")
+	}
+
 	if s[0] == '"' {
 		s = s[1:]
 	}
-- 
2.43.0


From 71ea16e700030e2aa65700e0958582f21595ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 26/48] fix: name imports used by embedded interfaces

---
 generator/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index a825364..5db5d99 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -181,7 +181,7 @@ func (u *usedImports) addSelectors(node ast.Node, input targetProcessInput) {
 		if se, ok := n.(*ast.SelectorExpr); ok {
 			if ident, ok := se.X.(*ast.Ident); ok {
 				if spec := findImportSpec(ident.Name, input.imports, input.currentPackage); spec != nil {
-					u.add(spec)
+					u.add(nameImports([]*ast.ImportSpec{spec}, input.currentPackage)...)
 				}
 			}
 		}
@@ -303,6 +303,10 @@ func NewGenerator(options Options) (*Generator, error) {
 // nameImports gives explicit names to the imports of the packages whose names can't be derived from
 // their paths, otherwise it's impossible to tell if such imports are used
 func nameImports(imports []*ast.ImportSpec, p *packages.Package) []*ast.ImportSpec {
+	if p == nil {
+		return imports
+	}
+
 	result := make([]*ast.ImportSpec, len(imports))
 	for i, im := range imports {
 		result[i] = im
-- 
2.43.0


From da2bd7b8d652032b701cd2cf8b486d45b9448d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 27/48] fix: do not repeat imports that are named explicitly
 with their own names

---
 generator/generator.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 5db5d99..08b7dfd 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -437,8 +437,8 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
-// removeDuplicateImports removes named imports that are present in both the header and the body,
-// the unnamed ones are handled by imports.Process
+// removeDuplicateImports removes imports that are present in both the header and the body or are
+// present with and without the name they are given by default
 func removeDuplicateImports(source []byte) []byte {
 	fs := token.NewFileSet()
 
@@ -460,11 +460,16 @@ func removeDuplicateImports(source []byte) []byte {
 
 		for _, spec := range gd.Specs {
 			im, ok := spec.(*ast.ImportSpec)
-			if !ok || im.Name == nil {
+			if !ok {
 				continue
 			}
 
-			key := im.Name.Name + " " + unquote(im.Path.Value)
+			name := assumedName(unquote(im.Path.Value))
+			if im.Name != nil {
+				name = im.Name.Name
+			}
+
+			key := name + " " + unquote(im.Path.Value)
 			if !seen[key] {
 				seen[key] = true
 				continue
-- 
2.43.0


From 9fdb91c5ab45c1105b47898d420a2cd3faabee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 28/48] fix: refuse struct fields and methods of interface
 literals that are not exported

---
 printer/printer.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 24c811f..3bdd753 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -188,6 +188,8 @@ func (p *Printer) printMap(mt *ast.MapType) (string, error) {
 var (
 	errUnexportedType  = errors.New("unexported type")
 	errUnexportedConst = errors.New("unexported constant")
+	errUnexportedField = errors.New("unexported struct field")
+	errUnexportedFunc  = errors.New("unexported method")
 )
 
 func (p *Printer) printIdent(i *ast.Ident) (string, error) {
@@ -275,6 +277,11 @@ func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
 		}
 
 		if _, ok := field.Type.(*ast.FuncType); ok && len(field.Names) > 0 {
+			//an unexported method of the source package is not the one declared in another package
+			if len(p.typesPrefix) > 0 && !field.Names[0].IsExported() {
+				return "", errors.Wrap(errUnexportedFunc, field.Names[0].Name)
+			}
+
 			element = field.Names[0].Name + strings.TrimPrefix(element, "func")
 		}
 
@@ -299,9 +306,43 @@ func (p *Printer) printStruct(s *ast.StructType) (string, error) {
 		return "", err
 	}
 
+	if len(p.typesPrefix) > 0 {
+		//unexported fields make the same struct types from different packages different
+		for _, name := range fieldNames(s.Fields) {
+			if !name.IsExported() {
+				return "", errors.Wrap(errUnexportedField, name.Name)
+			}
+		}
+	}
+
 	return "struct{\n" + strings.Join(fields, "\n") + "\n}", nil
 }
 
+// fieldNames returns names of the struct fields including the embedded ones
+func fieldNames(fl *ast.FieldList) []*ast.Ident {
+	if fl == nil {
+		return nil
+	}
+
+	names := []*ast.Ident{}
+	for _, field := range fl.List {
+		if len(field.Names) > 0 {
+			names = append(names, field.Names...)
+			continue
+		}
+
+		embedded := field.Type
+		if star, ok := embedded.(*ast.StarExpr); ok {
+			embedded = star.X
+		}
+		if ident, ok := embedded.(*ast.Ident); ok {
+			names = append(names, ident)
+		}
+	}
+
+	return names
+}
+
 func (p *Printer) printVariadicParam(e *ast.Ellipsis) (string, error) {
 	sliceType, err := p.PrintType(e.Elt)
 	if err != nil {
-- 
2.43.0


From 5ce408f25ac60a980c5313cc19d5343c61a23b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 29/48] fix: refuse embedded interfaces with unexported methods
 of another package

---
 generator/generator.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 08b7dfd..1c685b4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -578,7 +578,7 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string, input targetProces
 
 	input.used.add(out.used...)
 
-	return out.methods, nil
+	return out.methods, checkExported(out.methods)
 }
 
 // isContext returns true if the selector refers to the context.Context
@@ -816,9 +816,30 @@ func processSelector(se *ast.SelectorExpr, input targetProcessInput) (methodsLis
 		genericParams:  input.genericParams,
 	})
 
+	if err != nil {
+		return nil, err
+	}
+
 	input.used.add(output.used...)
 
-	return output.methods, err
+	return output.methods, checkExported(output.methods)
+}
+
+// checkExported returns an error if any of the methods can't be implemented in another package
+func checkExported(methods methodsList) error {
+	names := make([]string, 0, len(methods))
+	for name := range methods {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
+		if !ast.IsExported(name) {
+			return errors.Wrap(errUnexportedMethod, name)
+		}
+	}
+
+	return nil
 }
 
 // mergeMethods merges two methods list. Retains overlapping methods from the
-- 
2.43.0


From 0add328ac836485f1085d533aee8164f61e4bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 30/48] fix: refuse interfaces that can be used only as type
 constraints

---
 generator/generator.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 1c685b4..c365968 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -679,7 +679,8 @@ func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, ch
 		methods, err = processIdent(v, input, checkInterface)
 		return
 	}
-	return
+
+	return param, nil, errors.Wrap(errNotAnInterface, param.Name)
 }
 
 func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (genericParam genericParam, embeddedMethods methodsList, err error) {
@@ -770,6 +771,9 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 		case *ast.InterfaceType:
 			embeddedMethods, err = processInterface(v, targetInput)
 
+		case *ast.BinaryExpr, *ast.UnaryExpr:
+			err = errTypeConstraint
+
 		default:
 			_, embeddedMethods, err = processEmbedded(v, pr, targetInput, true)
 		}
@@ -864,6 +868,7 @@ func mergeMethods(methods, embeddedMethods methodsList) (methodsList, error) {
 var (
 	errNotAnInterface  = errors.New("embedded type is not an interface")
 	errUnknownEmbedded = errors.New("embedded type is not declared in the package")
+	errTypeConstraint  = errors.New("interface can be used only as a type constraint")
 	errEmbeddingCycle  = errors.New("type refers to itself")
 )
 
@@ -915,8 +920,10 @@ func processIdent(i *ast.Ident, input targetProcessInput, checkInterface bool) (
 			Name:    "Error",
 			Results: ParamsSlice{{Name: "s1", Type: "string"}},
 		}}, nil
-	case "any", "comparable":
+	case "any":
 		return nil, nil
+	case "comparable":
+		return nil, errTypeConstraint
 	}
 
 	return nil, errors.Wrap(errUnknownEmbedded, i.Name)
-- 
2.43.0


From 60c7733279bc3a4d08f2e05fb4eb1dc6a7ec01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 31/48] fix: function types in constraints do not cause a panic

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index c365968..3542e1b 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -760,6 +760,10 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 		switch v := ast.Unparen(field.Type).(type) {
 		case *ast.FuncType:
+			if len(field.Names) == 0 {
+				return nil, errTypeConstraint
+			}
+
 			var method *Method
 
 			method, err = newMethod(field.Names[0].Name, field, pr, nil, nil, targetInput.isContext)
-- 
2.43.0


From 73c459ea836bf553c2af3d20e13ab45deb82b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 32/48] fix: do not split import groups when repeated imports
 are removed

---
 generator/generator.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 3542e1b..e897d41 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -301,7 +301,7 @@ func NewGenerator(options Options) (*Generator, error) {
 }
 
 // nameImports gives explicit names to the imports of the packages whose names can't be derived from
-// their paths, otherwise it's impossible to tell if such imports are used
+// their paths, otherwise it's impossible to tell if such imports are used, and drops redundant ones
 func nameImports(imports []*ast.ImportSpec, p *packages.Package) []*ast.ImportSpec {
 	if p == nil {
 		return imports
@@ -312,11 +312,16 @@ func nameImports(imports []*ast.ImportSpec, p *packages.Package) []*ast.ImportSp
 		result[i] = im
 
 		imported := p.Imports[unquote(im.Path.Value)]
-		if im.Name != nil || imported == nil || imported.Name == "" || imported.Name == assumedName(imported.PkgPath) {
+		if imported == nil || imported.Name == "" {
 			continue
 		}
 
-		result[i] = &ast.ImportSpec{Name: ast.NewIdent(imported.Name), Path: im.Path}
+		switch assumed := assumedName(imported.PkgPath) == imported.Name; {
+		case im.Name == nil && !assumed:
+			result[i] = &ast.ImportSpec{Name: ast.NewIdent(imported.Name), Path: im.Path}
+		case im.Name != nil && im.Name.Name == imported.Name && assumed:
+			result[i] = &ast.ImportSpec{Path: im.Path}
+		}
 	}
 
 	return result
@@ -448,7 +453,8 @@ func removeDuplicateImports(source []byte) []byte {
 	}
 
 	var (
-		result = append([]byte(nil), source...)
+		result []byte
+		end    int
 		seen   = make(map[string]bool)
 	)
 
@@ -480,13 +486,16 @@ func removeDuplicateImports(source []byte) []byte {
 				node = gd
 			}
 
-			for i := fs.Position(node.Pos()).Offset; i < fs.Position(node.End()).Offset; i++ {
-				result[i] = ' '
+			start := fs.Position(node.Pos()).Offset
+			for start > 0 && unicode.IsSpace(rune(source[start-1])) {
+				start--
 			}
+			result = append(result, source[end:start]...)
+			end = fs.Position(node.End()).Offset
 		}
 	}
 
-	return result
+	return append(result, source[end:]...)
 }
 
 var errTargetNotFound = errors.New("target declaration not found")
-- 
2.43.0


From 2856c428f424a266e68ed78c73304d402d5b2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 33/48] fix: name the package after its directory when the
 output goes to an empty working directory

---
 generator/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index e897d41..5505e44 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -391,8 +391,14 @@ func loadDestinationPackage(path string) (*packages.Package, error) {
 var errNoPackageName = errors.New("failed to determine the destination package name")
 
 func makePackage(path string) (*packages.Package, error) {
+	//relative paths like "." and ".." don't tell the directory name
+	path, err := filepath.Abs(path)
+	if err != nil {
+		return nil, err
+	}
+
 	name := filepath.Base(path)
-	if name == string(filepath.Separator) || name == "." {
+	if name == string(filepath.Separator) {
 		return nil, errNoPackageName
 	}
 
-- 
2.43.0


From 0671c1f32e16faecf606f0cd3c01da7164be4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 34/48] fix: keep imports with the local prefix in the last
 group regardless of the template's groups

---
 generator/generator.go | 77 ++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 5505e44..77a1183 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -439,7 +439,7 @@ func (g Generator) Generate(w io.Writer) error {
 	}
 
 	imports.LocalPrefix = g.localPrefix
-	processedSource, err := imports.Process(g.Options.OutputFile, removeDuplicateImports(buf.Bytes()), nil)
+	processedSource, err := imports.Process(g.Options.OutputFile, mergeImports(buf.Bytes()), nil)
 	if err != nil {
 		return errors.Wrapf(err, "failed to format generated code:\n%s", buf)
 	}
@@ -448,9 +448,11 @@ func (g Generator) Generate(w io.Writer) error {
 	return err
 }
 
-// removeDuplicateImports removes imports that are present in both the header and the body or are
-// present with and without the name they are given by default
-func removeDuplicateImports(source []byte) []byte {
+// mergeImports puts all imports into one group, so that imports.Process arranges them
+// regardless of the way they are grouped in the template. It removes imports that are
+// present in both the header and the body or are present with and without the name they
+// are given by default.
+func mergeImports(source []byte) []byte {
 	fs := token.NewFileSet()
 
 	f, err := parser.ParseFile(fs, "", source, parser.ImportsOnly)
@@ -459,22 +461,32 @@ func removeDuplicateImports(source []byte) []byte {
 	}
 
 	var (
-		result []byte
-		end    int
-		seen   = make(map[string]bool)
+		group, rest []byte
+		end         int
+		start       = -1
+		seen        = make(map[string]bool)
+		offset      = func(pos token.Pos) int { return fs.Position(pos).Offset }
 	)
 
 	for _, decl := range f.Decls {
 		gd, ok := decl.(*ast.GenDecl)
-		if !ok {
+		if !ok || importsC(gd) {
 			continue
 		}
 
+		if start < 0 {
+			start = offset(gd.Pos())
+		}
+		rest = append(rest, source[end:offset(gd.Pos())]...)
+		end = offset(gd.End())
+
+		next, stop := offset(gd.Pos())+len("import"), offset(gd.End())
+		if gd.Lparen.IsValid() {
+			next, stop = offset(gd.Lparen)+1, offset(gd.Rparen)
+		}
+
 		for _, spec := range gd.Specs {
-			im, ok := spec.(*ast.ImportSpec)
-			if !ok {
-				continue
-			}
+			im := spec.(*ast.ImportSpec)
 
 			name := assumedName(unquote(im.Path.Value))
 			if im.Name != nil {
@@ -482,28 +494,43 @@ func removeDuplicateImports(source []byte) []byte {
 			}
 
 			key := name + " " + unquote(im.Path.Value)
-			if !seen[key] {
-				seen[key] = true
-				continue
+			if seen[key] {
+				group = append(group, bytes.TrimRightFunc(source[next:offset(im.Pos())], unicode.IsSpace)...)
+				next = offset(im.End())
 			}
+			seen[key] = true
+		}
+		group = append(append(group, source[next:stop]...), '\n')
+	}
 
-			var node ast.Node = im
-			if !gd.Lparen.IsValid() {
-				node = gd
-			}
+	if start < 0 {
+		return source
+	}
 
-			start := fs.Position(node.Pos()).Offset
-			for start > 0 && unicode.IsSpace(rune(source[start-1])) {
-				start--
-			}
-			result = append(result, source[end:start]...)
-			end = fs.Position(node.End()).Offset
+	result := append([]byte{}, rest[:start]...)
+	result = append(result, "import (\n"...)
+	for _, line := range bytes.Split(group, []byte("\n")) {
+		if len(bytes.TrimSpace(line)) > 0 {
+			result = append(append(result, line...), '\n')
 		}
 	}
+	result = append(result, ')')
+	result = append(result, rest[start:]...)
 
 	return append(result, source[end:]...)
 }
 
+// importsC returns true for import "C", which makes sense only next to its comment
+func importsC(gd *ast.GenDecl) bool {
+	for _, spec := range gd.Specs {
+		if im, ok := spec.(*ast.ImportSpec); !ok || unquote(im.Path.Value) == "C" {
+			return true
+		}
+	}
+
+	return false
+}
+
 var errTargetNotFound = errors.New("target declaration not found")
 
 func findTarget(input processInput) (output processOutput, err error) {
-- 
2.43.0


From 6a39bcd5cf62e70d3160e6bd17e530175f68948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 35/48] fix: constraints can mention type parameters named like
 types of the source package

---
 generator/generics.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/generator/generics.go b/generator/generics.go
index 71c2310..87d6da5 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -89,6 +89,8 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 		return
 	}
 
+	allTypes = visibleTypes(ts, allTypes)
+
 	for _, param := range ts.TypeParams.List {
 		if param == nil {
 			continue
@@ -111,6 +113,24 @@ func buildGenericTypesFromSpec(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, types
 	return
 }
 
+// visibleTypes returns the types that are not hidden by the type parameters of the given spec
+func visibleTypes(ts *ast.TypeSpec, allTypes []*ast.TypeSpec) (types []*ast.TypeSpec) {
+	hidden := make(map[string]bool)
+	for _, param := range ts.TypeParams.List {
+		for _, name := range param.Names {
+			hidden[name.Name] = true
+		}
+	}
+
+	for _, t := range allTypes {
+		if !hidden[t.Name.Name] {
+			types = append(types, t)
+		}
+	}
+
+	return types
+}
+
 func parseBinaryExpr(expr *ast.BinaryExpr, allTypes []*ast.TypeSpec, typesPrefix string) string {
 	if expr.Op != token.OR {
 		return ""
@@ -154,6 +174,8 @@ func checkConstraints(ts *ast.TypeSpec, allTypes []*ast.TypeSpec, typesPrefix st
 		return nil
 	}
 
+	allTypes = visibleTypes(ts, allTypes)
+
 	for _, param := range ts.TypeParams.List {
 		ast.Inspect(param.Type, func(n ast.Node) bool {
 			switch t := n.(type) {
-- 
2.43.0


From 745057b0ef965b3088f15900cf5cbe9ceeb7c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 36/48] fix: recognize contexts and errors passed as type
 arguments of embedded interfaces

---
 generator/generator.go | 41 ++++++++++++++++++++++++++++++++++++-----
 generator/generics.go  |  2 ++
 generator/types.go     | 23 +++++++++++++----------
 3 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 77a1183..4342521 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -623,10 +623,39 @@ func getMethods(sel *ast.SelectorExpr, srcPackagePath string, input targetProces
 	return out.methods, checkExported(out.methods)
 }
 
-// isContext returns true if the selector refers to the context.Context
-func (input targetProcessInput) isContext(se *ast.SelectorExpr) bool {
-	ident, ok := se.X.(*ast.Ident)
-	if !ok || !isContextName(se) {
+// typeArgument returns the type argument of the type parameter the expression refers to
+func (input targetProcessInput) typeArgument(e ast.Expr) (arg genericParam) {
+	ident, ok := e.(*ast.Ident)
+	if !ok {
+		return arg
+	}
+
+	i := 0
+	for _, genType := range input.genericTypes {
+		for _, name := range genType.Names {
+			if name == ident.Name && i < len(input.genericParams) {
+				return input.genericParams[i]
+			}
+			i++
+		}
+	}
+
+	return arg
+}
+
+// isError returns true if the expression is the error type or a type parameter it's passed for
+func (input targetProcessInput) isError(e ast.Expr) bool {
+	return isErrorName(e) || input.typeArgument(e).Name == "error"
+}
+
+// isContext returns true if the expression refers to the context.Context or a type parameter it's passed for
+func (input targetProcessInput) isContext(e ast.Expr) bool {
+	if !isContextName(e) {
+		return input.typeArgument(e).isContext
+	}
+
+	ident, ok := e.(*ast.SelectorExpr).X.(*ast.Ident)
+	if !ok {
 		return false
 	}
 
@@ -771,11 +800,13 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 		x = v
 	}
 
+	isContext := input.isContext(x)
 	input.genericParams = genericParams
 	genericParam, embeddedMethods, err = getEmbeddedMethods(x, pr, input, checkInterface)
 	if err != nil {
 		return
 	}
+	genericParam.isContext = isContext
 
 	if hasGenericsParams {
 		genericParam.Params = genericParams
@@ -808,7 +839,7 @@ func processInterface(it *ast.InterfaceType, targetInput targetProcessInput) (me
 
 			var method *Method
 
-			method, err = newMethod(field.Names[0].Name, field, pr, nil, nil, targetInput.isContext)
+			method, err = newMethod(field.Names[0].Name, field, pr, nil, nil, targetInput.isError, targetInput.isContext)
 			if err == nil {
 				methods[field.Names[0].Name] = *method
 				continue
diff --git a/generator/generics.go b/generator/generics.go
index 87d6da5..24c6858 100644
--- a/generator/generics.go
+++ b/generator/generics.go
@@ -33,6 +33,8 @@ type genericParams []genericParam
 type genericParam struct {
 	Name   string
 	Params genericParams
+
+	isContext bool
 }
 
 func (g genericParam) String() string {
diff --git a/generator/types.go b/generator/types.go
index efbe8cb..87de43c 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -68,14 +68,20 @@ func (p Param) Pass() string {
 
 // NewMethod returns pointer to Signature struct or error
 func NewMethod(name string, fi *ast.Field, printer typePrinter, genericTypes genericTypes, genericParams genericParams) (*Method, error) {
-	return newMethod(name, fi, printer, genericTypes, genericParams, isContextName)
+	return newMethod(name, fi, printer, genericTypes, genericParams, isErrorName, isContextName)
 }
 
-func isContextName(se *ast.SelectorExpr) bool {
-	return se.Sel.Name == "Context"
+func isErrorName(e ast.Expr) bool {
+	ident, ok := e.(*ast.Ident)
+	return ok && ident.Name == "error"
 }
 
-func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes genericTypes, genericParams genericParams, isContext func(*ast.SelectorExpr) bool) (*Method, error) {
+func isContextName(e ast.Expr) bool {
+	se, ok := e.(*ast.SelectorExpr)
+	return ok && se.Sel.Name == "Context"
+}
+
+func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes genericTypes, genericParams genericParams, isError, isContext func(ast.Expr) bool) (*Method, error) {
 	f, ok := fi.Type.(*ast.FuncType)
 	if !ok {
 		return nil, fmt.Errorf("%q is not a method", name)
@@ -100,16 +106,13 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 
 	//Always name the last return parameter as an "err" if it's of type "error"
 	if f.Results != nil && len(f.Results.List) > 0 {
-		ident, ok := f.Results.List[len(f.Results.List)-1].Type.(*ast.Ident)
-		m.ReturnsError = ok && ident.Name == "error"
+		m.ReturnsError = isError(f.Results.List[len(f.Results.List)-1].Type)
 		usedNames["err"] = true
 	}
 
 	if len(f.Params.List) > 0 {
-		if se, ok := f.Params.List[0].Type.(*ast.SelectorExpr); ok {
-			m.AcceptsContext = ok && isContext(se)
-			usedNames["ctx"] = m.AcceptsContext
-		}
+		m.AcceptsContext = isContext(f.Params.List[0].Type)
+		usedNames["ctx"] = m.AcceptsContext
 	}
 
 	//Generated names must not take the names which are given to other params and results
-- 
2.43.0


From a0169c9c58d24d9f0a0f64ceb9335430638f2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 37/48] fix: recognize contexts and errors with parenthesized
 types

---
 generator/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/types.go b/generator/types.go
index 87de43c..5d93bbe 100644
--- a/generator/types.go
+++ b/generator/types.go
@@ -106,12 +106,12 @@ func newMethod(name string, fi *ast.Field, printer typePrinter, genericTypes gen
 
 	//Always name the last return parameter as an "err" if it's of type "error"
 	if f.Results != nil && len(f.Results.List) > 0 {
-		m.ReturnsError = isError(f.Results.List[len(f.Results.List)-1].Type)
+		m.ReturnsError = isError(ast.Unparen(f.Results.List[len(f.Results.List)-1].Type))
 		usedNames["err"] = true
 	}
 
 	if len(f.Params.List) > 0 {
-		m.AcceptsContext = isContext(f.Params.List[0].Type)
+		m.AcceptsContext = isContext(ast.Unparen(f.Params.List[0].Type))
 		usedNames["ctx"] = m.AcceptsContext
 	}
 
-- 
2.43.0


From 8dc92a9d8786e2ad12c6327e10ebf76822d2e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 38/48] fix: do not refuse grouped types declared after a
 generic type with a type parameter of the same name

---
 generator/generator.go | 12 +++---------
 pkg/package.go         |  2 +-
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 4342521..c7b30cc 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -578,15 +578,9 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 
 		return getMethods(t, srcPackagePath, input)
 	case *ast.Ident:
-		if t.Obj == nil {
-			//the type can be declared in another file
-			if ts, imports, _ := iterateFiles(input.astPackage, t.Name); ts != nil {
-				input.imports = imports
-				return findMethods(ts, input)
-			}
-			return
-		}
-		if ts, ok := t.Obj.Decl.(*ast.TypeSpec); ok {
+		//the type can be declared in another file
+		if ts, imports, _ := iterateFiles(input.astPackage, t.Name); ts != nil {
+			input.imports = imports
 			return findMethods(ts, input)
 		}
 	}
diff --git a/pkg/package.go b/pkg/package.go
index f9c94eb..26db11d 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -51,7 +51,7 @@ func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 		return !ignored[fi.Name()]
 	}
 
-	pkgs, err := parser.ParseDir(fset, dir, filter, parser.DeclarationErrors|parser.ParseComments)
+	pkgs, err := parser.ParseDir(fset, dir, filter, parser.SkipObjectResolution|parser.ParseComments)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 193c78826c0e4efc8c82f2d5d63311332f792628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 39/48] fix: qualify types in the unions of constraint literals

---
 printer/printer.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 3bdd753..7f10ebb 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -84,6 +84,10 @@ func (p *Printer) PrintType(node ast.Node) (string, error) {
 		return p.printParen(t)
 	case *ast.InterfaceType:
 		return p.printInterface(t)
+	case *ast.UnaryExpr:
+		return p.printTilde(t)
+	case *ast.BinaryExpr:
+		return p.printUnion(t)
 	}
 
 	err := printer.Fprint(p.buf, p.fs, node)
@@ -291,6 +295,29 @@ func (p *Printer) printInterface(it *ast.InterfaceType) (string, error) {
 	return "interface{\n" + strings.Join(elements, "\n") + "\n}", nil
 }
 
+func (p *Printer) printTilde(ue *ast.UnaryExpr) (string, error) {
+	t, err := p.PrintType(ue.X)
+	if err != nil {
+		return "", err
+	}
+
+	return ue.Op.String() + t, nil
+}
+
+func (p *Printer) printUnion(be *ast.BinaryExpr) (string, error) {
+	x, err := p.PrintType(be.X)
+	if err != nil {
+		return "", err
+	}
+
+	y, err := p.PrintType(be.Y)
+	if err != nil {
+		return "", err
+	}
+
+	return x + " " + be.Op.String() + " " + y, nil
+}
+
 func (p *Printer) printPointer(pt *ast.StarExpr) (string, error) {
 	pointerTo, err := p.PrintType(pt.X)
 	if err != nil {
-- 
2.43.0


From 80a9a4d41a4aea0deb6243c01f75725d07f7b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 40/48] fix: do not overwrite imports of another generator
 given the same options

---
 generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index c7b30cc..c74a6bc 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -213,6 +213,9 @@ func NewGenerator(options Options) (*Generator, error) {
 		options.Vars = make(map[string]interface{})
 	}
 
+	//imports are added to a copy, the caller may use the same slice for other generators
+	options.Imports = append([]string(nil), options.Imports...)
+
 	fs := token.NewFileSet()
 
 	var srcPackage *packages.Package
-- 
2.43.0


From 90fff17f211d6c8c6fab7889aabcb95efb265959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 41/48] fix: let several twirp_error decorators share a package

---
 templates/twirp_error | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/twirp_error b/templates/twirp_error
index 067befa..0db69be 100644
--- a/templates/twirp_error
+++ b/templates/twirp_error
@@ -22,7 +22,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
     {{- if $method.ReturnsError}}
       {{range $param := $method.Params}}
         {{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}
-          defer injectRequestDataToError({{$param.Name}} ,&err)
+          defer inject{{$decorator}}RequestDataToError({{$param.Name}} ,&err)
         {{end}}
       {{end}}
     {{end}}
@@ -30,7 +30,7 @@ func New{{$decorator}} (base {{.Interface.Type}}) {{$decorator}} {
   }
 {{end}}
 
-func injectRequestDataToError(req interface{}, perr *error) {
+func inject{{$decorator}}RequestDataToError(req interface{}, perr *error) {
 	err := *perr
 	if err != nil {
 		twerr, ok := err.(twirp.Error)
-- 
2.43.0


From 8f97f6f204133bcfa0e9deca8dca0cc6e77a6628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 42/48] fix: find the package of an aliased interface by its
 name

The alias was resolved to the first import whose path ends with the name,
even if it is the path of a package that is called differently.
---
 generator/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index c74a6bc..6d39abf 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -571,7 +571,12 @@ func findMethods(selectedType *ast.TypeSpec, input targetProcessInput) (methods
 		if !ok {
 			return
 		}
-		srcPackagePath := findSourcePackage(ident, input.imports)
+		var srcPackagePath string
+		if spec := findImportSpec(ident.Name, input.imports, input.currentPackage); spec != nil {
+			srcPackagePath = unquote(spec.Path.Value)
+		} else {
+			srcPackagePath = findSourcePackage(ident, input.imports)
+		}
 		if srcPackagePath == "" && input.currentPackage != nil {
 			srcPackagePath, err = findImportPathForName(ident.Name, input.imports, input.currentPackage)
 			if err != nil {
-- 
2.43.0


From a6308655846162a2ed646c0ce456702e1030eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 43/48] fix: let templates import packages under other names

The Import helper put a quote before the name, which made the import
block invalid.
---
 generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 6d39abf..d6b7fc9 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -69,7 +69,8 @@ func (t TemplateInputs) Import(imports ...string) string {
 			i += `"`
 		}
 
-		if i[0] != '"' {
+		//the path can be preceded with a name
+		if i[0] != '"' && strings.Count(i, `"`) < 2 {
 			i = `"` + i
 		}
 
-- 
2.43.0


From 8614d1c735b5d4ec08a18a8c3529c963fe7977eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 44/48] fix: merge imports that are separated by semicolons

---
 generator/generator.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index d6b7fc9..b43874a 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -483,6 +483,10 @@ func mergeImports(source []byte) []byte {
 		}
 		rest = append(rest, source[end:offset(gd.Pos())]...)
 		end = offset(gd.End())
+		if after := skipSemicolon(source, end); after > end {
+			rest = append(rest, '\n')
+			end = after
+		}
 
 		next, stop := offset(gd.Pos())+len("import"), offset(gd.End())
 		if gd.Lparen.IsValid() {
@@ -500,9 +504,16 @@ func mergeImports(source []byte) []byte {
 			key := name + " " + unquote(im.Path.Value)
 			if seen[key] {
 				group = append(group, bytes.TrimRightFunc(source[next:offset(im.Pos())], unicode.IsSpace)...)
-				next = offset(im.End())
+			} else {
+				group = append(group, source[next:offset(im.End())]...)
 			}
 			seen[key] = true
+
+			next = offset(im.End())
+			if after := skipSemicolon(source, next); after > next && after <= stop {
+				group = append(group, '\n')
+				next = after
+			}
 		}
 		group = append(append(group, source[next:stop]...), '\n')
 	}
@@ -520,8 +531,22 @@ func mergeImports(source []byte) []byte {
 	}
 	result = append(result, ')')
 	result = append(result, rest[start:]...)
+	result = append(result, source[end:]...)
+
+	if _, err := parser.ParseFile(fs, "", result, parser.ImportsOnly); err != nil {
+		return source
+	}
+
+	return result
+}
+
+// skipSemicolon returns the offset after the semicolon that follows the given offset on the same line
+func skipSemicolon(source []byte, offset int) int {
+	if rest := bytes.TrimLeft(source[offset:], " \t"); bytes.HasPrefix(rest, []byte(";")) {
+		return len(source) - len(rest) + 1
+	}
 
-	return append(result, source[end:]...)
+	return offset
 }
 
 // importsC returns true for import "C", which makes sense only next to its comment
-- 
2.43.0


From 39127146f96ffe258310f7038fe7895749502ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 45/48] fix: leave out source files whose names start with an
 underscore or a dot

---
 pkg/package.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/package.go b/pkg/package.go
index 26db11d..f38b69c 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -7,6 +7,7 @@ import (
 	"go/token"
 	"io/fs"
 	"path/filepath"
+	"strings"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -46,9 +47,10 @@ func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 		ignored[filepath.Base(path)] = true
 	}
 
-	//files excluded by the build constraints may declare the same types in a different way
+	//files excluded from the build may declare the same types in a different way
 	filter := func(fi fs.FileInfo) bool {
-		return !ignored[fi.Name()]
+		name := fi.Name()
+		return !ignored[name] && !strings.HasPrefix(name, "_") && !strings.HasPrefix(name, ".")
 	}
 
 	pkgs, err := parser.ParseDir(fset, dir, filter, parser.SkipObjectResolution|parser.ParseComments)
-- 
2.43.0


From 01094fff6b25d8e7c6da5b5614c6d9e9835b55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 46/48] fix: recognize parenthesized type arguments of embedded
 interfaces

---
 generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index b43874a..5d07408 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -787,7 +787,7 @@ func processEmbedded(t ast.Expr, pr typePrinter, input targetProcessInput, check
 	var hasGenericsParams bool
 	var genericParams genericParams
 
-	switch v := t.(type) {
+	switch v := ast.Unparen(t).(type) {
 	case *ast.IndexExpr:
 		x = v.X
 		hasGenericsParams = true
-- 
2.43.0


From d8b9c28defc95c1f447d5471d924a9534ea797d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 47/48] fix: embed unexported interfaces whose methods can be
 implemented elsewhere

---
 generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index 5d07408..1e78375 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -764,8 +764,9 @@ func typeSpecs(f *ast.File) []*ast.TypeSpec {
 }
 
 func getEmbeddedMethods(t ast.Expr, pr typePrinter, input targetProcessInput, checkInterface bool) (param genericParam, methods methodsList, err error) {
+	//the name of an embedded interface doesn't get to the output, so it may be unexported
 	param.Name, err = pr.PrintType(t)
-	if err != nil || !checkInterface {
+	if !checkInterface {
 		return
 	}
 
-- 
2.43.0


From 9dec78d509c1774f6558527319b57faea298b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:29 +0000
Subject: [PATCH 48/48] fix: give names to dot imports of source files

Types and constants of dot-imported packages got to the output without an
import or with an import that is not used there, context.Context and embedded
interfaces of such packages were not recognized.
---
 pkg/package.go | 108 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 108 insertions(+)

diff --git a/pkg/package.go b/pkg/package.go
index f38b69c..eb852fd 100644
--- a/pkg/package.go
+++ b/pkg/package.go
@@ -7,8 +7,11 @@ import (
 	"go/token"
 	"io/fs"
 	"path/filepath"
+	"strconv"
 	"strings"
+	"unicode"
 
+	"golang.org/x/tools/go/ast/astutil"
 	"golang.org/x/tools/go/packages"
 )
 
@@ -59,6 +62,12 @@ func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 	}
 
 	if ap, ok := pkgs[p.Name]; ok {
+		for _, f := range ap.Files {
+			if err := nameDotImports(f, p); err != nil {
+				return nil, err
+			}
+		}
+
 		return &Package{
 			Name:  p.Name,
 			Files: ap.Files,
@@ -68,6 +77,105 @@ func AST(fset *token.FileSet, p *packages.Package) (*Package, error) {
 	return &Package{Name: p.Name}, nil
 }
 
+// nameDotImports gives names to dot imports of the file and puts these names before the types and
+// constants the file refers to without a selector, so that they can be used in other files
+func nameDotImports(f *ast.File, p *packages.Package) error {
+	for _, im := range f.Imports {
+		importPath, err := strconv.Unquote(im.Path.Value)
+		if err != nil || im.Name == nil || im.Name.Name != "." {
+			continue
+		}
+
+		imported := p.Imports[importPath]
+		if imported == nil || imported.Name == "" {
+			continue
+		}
+
+		importedAST, err := AST(token.NewFileSet(), imported)
+		if err != nil {
+			return err
+		}
+
+		im.Name = &ast.Ident{Name: dotImportName(importPath), NamePos: im.Name.NamePos}
+		for _, decl := range f.Decls {
+			if gd, ok := decl.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
+				for _, spec := range gd.Specs {
+					addSelectors(spec.(*ast.TypeSpec), im.Name.Name, exportedNames(importedAST))
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
+// dotImportName makes a valid package name from the import path
+func dotImportName(importPath string) string {
+	return "_" + strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, importPath)
+}
+
+// exportedNames returns names of exported types and constants of the package
+func exportedNames(p *Package) map[string]bool {
+	names := make(map[string]bool)
+
+	for fileName, f := range p.Files {
+		if strings.HasSuffix(fileName, "_test.go") {
+			continue
+		}
+
+		for _, decl := range f.Decls {
+			gd, ok := decl.(*ast.GenDecl)
+			if !ok {
+				continue
+			}
+
+			for _, spec := range gd.Specs {
+				switch s := spec.(type) {
+				case *ast.TypeSpec:
+					names[s.Name.Name] = s.Name.IsExported()
+				case *ast.ValueSpec:
+					for _, name := range s.Names {
+						names[name.Name] = name.IsExported()
+					}
+				}
+			}
+		}
+	}
+
+	return names
+}
+
+// addSelectors replaces names the type declaration refers to with selector expressions
+func addSelectors(ts *ast.TypeSpec, selector string, names map[string]bool) {
+	typeParams := make(map[string]bool)
+	if ts.TypeParams != nil {
+		for _, field := range ts.TypeParams.List {
+			for _, name := range field.Names {
+				typeParams[name.Name] = true
+			}
+		}
+	}
+
+	astutil.Apply(ts, func(c *astutil.Cursor) bool {
+		ident, ok := c.Node().(*ast.Ident)
+		if !ok || !names[ident.Name] || typeParams[ident.Name] {
+			return true
+		}
+
+		if c.Name() == "Name" || c.Name() == "Names" || c.Name() == "Sel" {
+			return true
+		}
+
+		c.Replace(&ast.SelectorExpr{X: &ast.Ident{Name: selector, NamePos: ident.NamePos}, Sel: ident})
+		return false
+	}, nil)
+}
+
 // Dir returns absolute path of the package in a filesystem
 func Dir(p *packages.Package) string {
 	files := append(p.GoFiles, p.OtherFiles...)
-- 
2.43.0

