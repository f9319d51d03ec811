From e516ae867cfc83b1790e062dbdde9d1ff9c5f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 01/53] fix: reset the visited mark of an inheritance source on
 every return path

An early return (any source, union source or target, error) left the source
marked, so that its next heir was replaced by the source itself and the type
was later taken for a recursive one.
---
 shape.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 09e7252..32d8b97 100644
--- a/shape.go
+++ b/shape.go
@@ -134,6 +134,8 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return sourceBase, nil
 	}
 	sourceBase.ShapeVisited = true
+	// The mark must not outlive this call on any return path, otherwise the source is mistaken for a recursive one.
+	defer func() { sourceBase.ShapeVisited = false }()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -175,7 +177,6 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, StacktraceNewWrapped("merge shapes", err, target.Base().Location,
 			stacktrace.WithPosition(&target.Base().Position))
 	}
-	sourceBase.ShapeVisited = false
 	return s, nil
 }
 
-- 
2.43.0


From e1571c11ccc202ea5b402dcc8b58d3a8d18b31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 02/53] fix: inherit union members of the target from the
 source type

The members inherited from the target itself, so that a union overriding a
property silently dropped the constraints of its parent.
---
 shape.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 32d8b97..3d466fd 100644
--- a/shape.go
+++ b/shape.go
@@ -169,7 +169,9 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return s.inheritUnionTarget(targetUnion)
+		// Every member inherits from the source on its own, so the source must not look visited to them.
+		sourceBase.ShapeVisited = false
+		return sourceBase.inheritUnionTarget(targetUnion)
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
-- 
2.43.0


From 007485386436b54d65600d30f017dc52ef9d2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 03/53] fix: do not modify types that share nested shapes with
 an heir

Properties, items and union members are shared through aliases, parents and
multiple inheritance. Inheriting them in-place changed unrelated types (the
first of several parents received the properties of the others), and the
narrowed copy made for a union parent was thrown away.
---
 complex.go | 23 ++++++++++++++++++++---
 shape.go   | 20 ++++++++++++++++++--
 unwrap.go  |  5 +++--
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/complex.go b/complex.go
index d1537b8..13ba4a7 100644
--- a/complex.go
+++ b/complex.go
@@ -130,11 +130,12 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	if s.Items == nil {
 		s.Items = ss.Items
 	} else if ss.Items != nil {
-		_, err := s.Items.Inherit(ss.Items)
+		items, err := s.Items.inheritDetached(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
+		s.Items = items
 	}
 	if s.MinItems == nil {
 		s.MinItems = ss.MinItems
@@ -349,6 +350,18 @@ func (s *ObjectShape) Base() *BaseShape {
 func (s *ObjectShape) cloneShallow(base *BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if s.Properties != nil {
+		c.Properties = orderedmap.New[string, Property](s.Properties.Len())
+		for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
+			c.Properties.Set(pair.Key, pair.Value)
+		}
+	}
+	if s.PatternProperties != nil {
+		c.PatternProperties = orderedmap.New[string, PatternProperty](s.PatternProperties.Len())
+		for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+			c.PatternProperties.Set(pair.Key, pair.Value)
+		}
+	}
 	return &c
 }
 
@@ -552,13 +565,15 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			_, err := targetProp.Base.Inherit(sourceProp.Base)
+			is, err := targetProp.Base.inheritDetached(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			targetProp.Base = is
+			s.Properties.Set(k, targetProp)
 		} else {
 			s.Properties.Set(k, sourceProp)
 		}
@@ -575,13 +590,15 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
-				_, err := targetProp.Base.Inherit(sourceProp.Base)
+				is, err := targetProp.Base.inheritDetached(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
 				}
+				targetProp.Base = is
+				s.PatternProperties.Set(k, targetProp)
 			} else {
 				s.PatternProperties.Set(k, sourceProp)
 			}
diff --git a/shape.go b/shape.go
index 3d466fd..72841cf 100644
--- a/shape.go
+++ b/shape.go
@@ -182,6 +182,19 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	return s, nil
 }
 
+// inheritDetached inherits a copy of the shape from the source and returns the copy.
+//
+// Nested shapes (properties, items, union members) may be shared with other types through aliases and inheritance,
+// so these must never be modified in-place by an heir.
+func (s *BaseShape) inheritDetached(sourceBase *BaseShape) (*BaseShape, error) {
+	if sourceBase.ShapeVisited {
+		return s, nil
+	}
+	c := s.CloneShallow()
+	c.ShapeVisited = false
+	return c.Inherit(sourceBase)
+}
+
 const HookBeforeBaseShapeInheritUnionSource = "BaseShape.inheritUnionSource"
 
 func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, error) {
@@ -246,9 +259,10 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var st *stacktrace.StackTrace
-	for _, item := range targetUnion.AnyOf {
+	anyOf := make([]*BaseShape, len(targetUnion.AnyOf))
+	for i, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
-		_, err := item.Inherit(s)
+		is, err := item.inheritDetached(s)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
 				stacktrace.WithPosition(&targetUnion.Base().Position))
@@ -259,10 +273,12 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 			}
 			continue
 		}
+		anyOf[i] = is
 	}
 	if st != nil {
 		return nil, st
 	}
+	targetUnion.AnyOf = anyOf
 	return targetUnion.Base(), nil
 }
 
diff --git a/unwrap.go b/unwrap.go
index 13c6410..b9c2903 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -361,12 +361,13 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 			if errUnwrap != nil {
 				return nil, errUnwrap
 			}
-			us, errUnwrap = ss.Inherit(us)
+			inherits[i] = us
+			// Parents are merged into a copy since the first parent may be shared with other types.
+			ss, errUnwrap = ss.inheritDetached(us)
 			if errUnwrap != nil {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			inherits[i] = us
 		}
 		source = ss
 	}
-- 
2.43.0


From 8e71a8fc3fda2b3e292452e1b700eb0497aec6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 04/53] fix: report circular type references instead of
 overflowing the stack

Types that are aliases or heirs of each other and empty lists of parents
crashed the resolver.
---
 raml.go        |  2 ++
 rdt_visitor.go |  3 +++
 resolve.go     | 21 +++++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/raml.go b/raml.go
index 683fc5e..f5657dc 100644
--- a/raml.go
+++ b/raml.go
@@ -25,6 +25,8 @@ type RAML struct {
 	shapes []*BaseShape
 	// Temporary storage for unresolved shapes.
 	unresolvedShapes list.List
+	// resolving contains shapes whose type is being resolved to detect types that depend on themselves.
+	resolving map[*BaseShape]bool
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..e2e0083 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -93,6 +93,7 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	//nolint:errcheck // No error check needed because MakeConcreteShapeYAML returns UnionShape for TypeUnion.
 	unionShape := shape.(*UnionShape)
 
+	defer visitor.raml.resolveNested()()
 	// Create new anonymous shape for union member and continue resolving the expression for it.
 	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
@@ -118,6 +119,7 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	//nolint:errcheck // No error check needed because MakeConcreteShapeYAML returns ArrayShape for TypeArray.
 	arrayShape := shape.(*ArrayShape)
 
+	defer visitor.raml.resolveNested()()
 	// Create new anonymous shape for items and continue resolving the expression for it.
 	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
@@ -140,6 +142,7 @@ func (visitor *RdtVisitor) VisitUnion(ctx *rdt.UnionContext, target *UnknownShap
 	//nolint:errcheck // No error check needed because MakeConcreteShapeYAML returns UnionShape for TypeUnion.
 	unionShape := shape.(*UnionShape)
 
+	defer visitor.raml.resolveNested()()
 	ss, err := visitor.VisitUnionMembers(ctx, target)
 	if err != nil {
 		return nil, fmt.Errorf("visit children: %w", err)
diff --git a/resolve.go b/resolve.go
index 7a5869a..dda904d 100644
--- a/resolve.go
+++ b/resolve.go
@@ -86,6 +86,9 @@ func (r *RAML) resolveDomainExtension(de *DomainExtension) error {
 
 func (r *RAML) resolveMultipleInheritance(base *BaseShape, shape *UnknownShape) error {
 	inherits := base.Inherits
+	if len(inherits) == 0 {
+		return fmt.Errorf("type must have at least one parent")
+	}
 	for _, inherit := range inherits {
 		if err := r.resolveShape(inherit); err != nil {
 			return fmt.Errorf("resolve inherit: %w", err)
@@ -138,6 +141,14 @@ func (c *CustomErrorListener) SyntaxError(
 	c.Stacktrace = c.Stacktrace.Append(StacktraceNew(msg, c.location, posOpt, symbolInfoOpt))
 }
 
+// resolveNested forgets the shapes that are being resolved until the returned function is called.
+// Items and union members may refer back to the enclosing shape, because its own type is already known.
+func (r *RAML) resolveNested() func() {
+	resolving := r.resolving
+	r.resolving = nil
+	return func() { r.resolving = resolving }
+}
+
 // resolveShape resolves an unknown shape in-place.
 // NOTE: This function is not thread-safe. Use Clone() to create a copy of the shape before resolving if necessary.
 func (r *RAML) resolveShape(base *BaseShape) error {
@@ -152,6 +163,16 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
+	if r.resolving[base] {
+		return StacktraceNew("circular type reference", base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("name", base.Name))
+	}
+	if r.resolving == nil {
+		r.resolving = make(map[*BaseShape]bool)
+	}
+	r.resolving[base] = true
+	defer delete(r.resolving, base)
+
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
 		if err != nil {
-- 
2.43.0


From 84725526b8b506068b7ab95aef6a83289c30dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 05/53] fix: reject types that are members of themselves

Validating any value against a union that contains itself overflowed the stack.
---
 parse.go   |  5 +++++
 resolve.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/parse.go b/parse.go
index a50be10..497b9ea 100644
--- a/parse.go
+++ b/parse.go
@@ -385,6 +385,11 @@ func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parser
 		return StacktraceNewWrapped("resolve shapes", err, fragmentPath,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	err = r.checkCircularShapes()
+	if err != nil {
+		return StacktraceNewWrapped("check circular shapes", err, fragmentPath,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 	err = r.resolveDomainExtensions()
 	if err != nil {
 		return StacktraceNewWrapped("resolve domain extensions", err, fragmentPath,
diff --git a/resolve.go b/resolve.go
index dda904d..6b2c40e 100644
--- a/resolve.go
+++ b/resolve.go
@@ -50,6 +50,51 @@ func (r *RAML) resolveShapes() error {
 	return nil
 }
 
+// checkCircularShapes returns an error if any shape is defined through itself without being nested as a property or
+// an item. No finite set of values conforms to such shape, e.g. a union cannot be a member of itself.
+func (r *RAML) checkCircularShapes() error {
+	const (
+		inProgress = iota + 1
+		done
+	)
+	states := make(map[*BaseShape]int, len(r.shapes))
+	var check func(base *BaseShape) error
+	check = func(base *BaseShape) error {
+		switch states[base] {
+		case inProgress:
+			return StacktraceNew("circular type reference", base.Location,
+				stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("name", base.Name),
+				stacktrace.WithType(StacktraceTypeResolving))
+		case done:
+			return nil
+		}
+		states[base] = inProgress
+		sources := append([]*BaseShape{}, base.Inherits...)
+		if base.Alias != nil {
+			sources = append(sources, base.Alias)
+		}
+		if base.Link != nil {
+			sources = append(sources, base.Link.Shape)
+		}
+		if union, ok := base.Shape.(*UnionShape); ok {
+			sources = append(sources, union.AnyOf...)
+		}
+		for _, source := range sources {
+			if err := check(source); err != nil {
+				return err
+			}
+		}
+		states[base] = done
+		return nil
+	}
+	for _, base := range r.shapes {
+		if err := check(base); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // resolveDomainExtensions resolves all domain extensions in the RAML.
 func (r *RAML) resolveDomainExtensions() error {
 	var st *stacktrace.StackTrace
-- 
2.43.0


From 053cdcb3fa07c51d69f2a212eb08c7c8e2dc7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 06/53] fix: unwrap aliases of recursive types through the
 whole alias chain

An alias of an alias that was still being unwrapped produced an empty shape.
---
 unwrap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unwrap.go b/unwrap.go
index b9c2903..eab196f 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -413,7 +413,13 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 
 	// NOTE: Type aliasing is not inheritance and is not used as a source. It must be unwrapped and returned as is.
 	if base.Alias != nil {
-		us, err := r.UnwrapShape(base.Alias)
+		// Aliases are transparent. An alias in the middle of the chain may be being unwrapped further up the call stack
+		// if the type is recursive, in which case it does not provide any facets yet.
+		alias := base.Alias
+		for alias.Alias != nil {
+			alias = alias.Alias
+		}
+		us, err := r.UnwrapShape(alias)
 		if err != nil {
 			return nil, StacktraceNewWrapped("alias unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
-- 
2.43.0


From 7b204b7e32d0b055c240983aa2c879ad0e16e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 07/53] fix: report facets that are not a map instead of
 panicking

---
 shape.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shape.go b/shape.go
index 72841cf..5cb8ea3 100644
--- a/shape.go
+++ b/shape.go
@@ -822,6 +822,12 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Tag == TagNull {
+		return nil
+	}
+	if valueNode.Kind != yaml.MappingNode {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 50eb94748536f7cb01ac39cfa840973556c70076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 08/53] fix: report uses of a data type that are not a map
 instead of panicking

---
 fragment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fragment.go b/fragment.go
index 05e1a1d..abcb88b 100644
--- a/fragment.go
+++ b/fragment.go
@@ -344,6 +344,9 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 			if valueNode.Tag == TagNull {
 				break
 			}
+			if valueNode.Kind != yaml.MappingNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
 
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
-- 
2.43.0


From f93d3b76148378ae8efa02c4830fa68ea60d3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 09/53] fix: convert file types without any media type

---
 jsonschemaconv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..f2d6290 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -253,7 +253,7 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
+	if len(s.FileTypes) > 0 {
 		maybeStr, ok := s.FileTypes[0].Value.(string)
 		if !ok {
 			panic("file type must be a string")
-- 
2.43.0


From 7e50dcada7cba08b0626e1910251500b300828b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 10/53] fix: report null fragments and fragments used as
 another kind

---
 parse.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 497b9ea..6a23082 100644
--- a/parse.go
+++ b/parse.go
@@ -82,6 +82,11 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// The decoder resets the fragment if the document is null.
+	if dt == nil {
+		return nil, StacktraceNew("fragment must not be empty", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, dt)
 
@@ -131,7 +136,11 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	if dt := r.GetFragment(path); dt != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		if f, ok := dt.(*DataType); ok {
+			return f, nil
+		}
+		return nil, StacktraceNew("unexpected fragment kind", path,
+			stacktrace.WithType(StacktraceTypeReading))
 	}
 
 	f, err := openFragmentFile(path)
@@ -186,6 +195,11 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// The decoder resets the fragment if the document is null.
+	if lib == nil {
+		return nil, StacktraceNew("fragment must not be empty", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	var st *stacktrace.StackTrace
 
@@ -224,7 +238,11 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		if f, ok := lib.(*Library); ok {
+			return f, nil
+		}
+		return nil, StacktraceNew("unexpected fragment kind", path,
+			stacktrace.WithType(StacktraceTypeReading))
 	}
 
 	f, err := openFragmentFile(path)
@@ -262,6 +280,11 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	// The decoder resets the fragment if the document is null.
+	if ne == nil {
+		return nil, StacktraceNew("fragment must not be empty", path,
+			stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, ne)
 
@@ -274,7 +297,11 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		if f, ok := lib.(*NamedExample); ok {
+			return f, nil
+		}
+		return nil, StacktraceNew("unexpected fragment kind", path,
+			stacktrace.WithType(StacktraceTypeReading))
 	}
 
 	f, err := openFragmentFile(path)
-- 
2.43.0


From d58afca3dec78d6c437b6b955c32fbaf0f871b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 11/53] fix: normalize the path of the entry point

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 6a23082..96c30a9 100644
--- a/parse.go
+++ b/parse.go
@@ -352,7 +352,7 @@ func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
 		}
 	}(f)
 
-	return r.parseFragment(f, f.Name(), pOpts)
+	return r.parseFragment(f, filepath.Clean(f.Name()), pOpts)
 }
 
 func (r *RAML) ParseFromString(content string, fileName string, baseDir string, opts ...ParseOpt) error {
-- 
2.43.0


From 43e9598bea9aa6c15bc8f96cbc7beca92461b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 12/53] fix: parse data types that include themselves without
 overflowing the stack

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 96c30a9..cdfb6d6 100644
--- a/parse.go
+++ b/parse.go
@@ -78,6 +78,8 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
+	// The data type may include itself, so it must be known before its content is decoded.
+	r.PutFragment(path, dt)
 	if err := decoder.Decode(&dt); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -88,8 +90,6 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	r.PutFragment(path, dt)
-
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
 		include := pair.Value
-- 
2.43.0


From 7f33ea2fe8b494556f0c83b8c0d09cdc7a9aadfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 13/53] fix: validate integers by their exact value

---
 scalars.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..a6290f3 100644
--- a/scalars.go
+++ b/scalars.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"regexp"
 	"time"
@@ -36,6 +37,25 @@ func (r *RAML) MakeEnum(v *yaml.Node, location string) (Nodes, error) {
 	return enums, nil
 }
 
+// numericValue returns the exact value of a finite number.
+func numericValue(v any) (*big.Rat, bool) {
+	switch v := v.(type) {
+	case int:
+		return new(big.Rat).SetInt64(int64(v)), true
+	case uint:
+		return new(big.Rat).SetUint64(uint64(v)), true
+	case uint64:
+		return new(big.Rat).SetUint64(v), true
+	case float64:
+		if math.IsInf(v, 0) || math.IsNaN(v) {
+			return nil, false
+		}
+		return new(big.Rat).SetFloat64(v), true
+	default:
+		return nil, false
+	}
+}
+
 func isCompatibleEnum(source Nodes, target Nodes) bool {
 	// Target enum must be a subset of source enum
 	for _, v := range target {
@@ -115,11 +135,17 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 		val.SetInt64(int64(v))
 	case uint:
 		val.SetUint64(uint64(v))
+	// go-yaml unmarshals integers that do not fit int as uint64
+	case uint64:
+		val.SetUint64(v)
 	// json unmarshals numbers as float64
 	case float64:
-		val.SetInt64(int64(v))
+		if math.IsInf(v, 0) || v != math.Trunc(v) {
+			return fmt.Errorf("invalid value, got %v, expected integer", v)
+		}
+		big.NewFloat(v).Int(&val)
 	default:
-		return fmt.Errorf("invalid type, got %T, expected int, uint or float64", v)
+		return fmt.Errorf("invalid type, got %T, expected int, uint, uint64 or float64", v)
 	}
 
 	if s.Minimum != nil && val.Cmp(s.Minimum) < 0 {
@@ -132,15 +158,9 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	// TODO: Implement format validation
 	if s.Enum != nil {
 		// TODO: Probably enum values should be stored as big.Int to simplify validation
-		var num any
-		if val.IsInt64() {
-			num = int(val.Int64())
-		} else if val.IsUint64() {
-			num = uint(val.Uint64())
-		}
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == num {
+			if num, ok := numericValue(e.Value); ok && num.IsInt() && num.Num().Cmp(&val) == 0 {
 				found = true
 				break
 			}
@@ -209,7 +229,7 @@ func (s *IntegerShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint:
+			case int, uint, uint64:
 			default:
 				return StacktraceNew("enum value must be int or uint", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From dd233e9df0fc0310158404fc89c8ce70ca491a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 14/53] fix: compare enum values of numbers by value

---
 scalars.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/scalars.go b/scalars.go
index a6290f3..003157a 100644
--- a/scalars.go
+++ b/scalars.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 
@@ -56,12 +57,21 @@ func numericValue(v any) (*big.Rat, bool) {
 	}
 }
 
+// sameValue tells whether two data nodes have equal values. Numbers are compared by value.
+func sameValue(a, b any) bool {
+	if x, ok := numericValue(a); ok {
+		y, okB := numericValue(b)
+		return okB && x.Cmp(y) == 0
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func isCompatibleEnum(source Nodes, target Nodes) bool {
 	// Target enum must be a subset of source enum
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if sameValue(v.Value, e.Value) {
 				found = true
 				break
 			}
@@ -361,10 +371,13 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 		val = float64(v)
 	case uint:
 		val = float64(v)
+	// go-yaml unmarshals integers that do not fit int as uint64
+	case uint64:
+		val = float64(v)
 	case float64:
 		val = v
 	default:
-		return fmt.Errorf("invalid type, got %T, expected int, uint, float64", v)
+		return fmt.Errorf("invalid type, got %T, expected int, uint, uint64, float64", v)
 	}
 
 	if s.Minimum != nil && val < *s.Minimum {
@@ -378,7 +391,7 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == val {
+			if sameValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -447,7 +460,7 @@ func (s *NumberShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint, float64:
+			case int, uint, uint64, float64:
 			default:
 				return StacktraceNew("enum value must be int, uint, float64", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From 8f25d6ad248923b14bc12ac313ddd499567f73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 15/53] fix: measure the length of strings in characters

---
 scalars.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 003157a..af3f445 100644
--- a/scalars.go
+++ b/scalars.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"regexp"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 
@@ -568,7 +569,8 @@ func (s *StringShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	strLen := uint64(len(i))
+	// Length is measured in characters, as in JSON schema.
+	strLen := uint64(utf8.RuneCountInString(i))
 	if s.MinLength != nil && strLen < *s.MinLength {
 		return fmt.Errorf("length must be greater than %d", *s.MinLength)
 	}
-- 
2.43.0


From 80911157edf7e74016303b491a3d30832b27e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 16/53] fix: copy enum of boolean types to their aliases

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index af3f445..8281514 100644
--- a/scalars.go
+++ b/scalars.go
@@ -871,13 +871,14 @@ func (s *BooleanShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 }
 
 func (s *BooleanShape) alias(source Shape) (Shape, error) {
-	_, ok := source.(*BooleanShape)
+	ss, ok := source.(*BooleanShape)
 	if !ok {
 		return nil, StacktraceNew("cannot make alias from different type", s.Location,
 			stacktrace.WithPosition(&s.Position),
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	s.Enum = ss.Enum
 	return s, nil
 }
 
-- 
2.43.0


From fe03e0320250204cfad8301a4cef91f4a688859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 17/53] fix: keep multipleOf of number types that override it

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 8281514..93dbc74 100644
--- a/scalars.go
+++ b/scalars.go
@@ -430,7 +430,7 @@ func (s *NumberShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", *s.Maximum))
 	}
 	// TODO: multipleOf validation
-	if ss.MultipleOf != nil {
+	if s.MultipleOf == nil {
 		// TODO: Disallow multipleOf 0 to avoid division by zero during validation
 		s.MultipleOf = ss.MultipleOf
 	}
-- 
2.43.0


From 17a60404cbf56b543e83a0b0d1d885fbea02bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 18/53] fix: use examples from included named examples

---
 jsonschemaconv.go | 6 +++++-
 validate.go       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index f2d6290..d9b5d63 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -499,7 +499,11 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 		core.Default = base.Default.Value
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		examples := base.Examples.Map
+		if base.Examples.Link != nil {
+			examples = base.Examples.Link.Map
+		}
+		for pair := examples.Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			core.Examples = append(core.Examples, ex.Data.Value)
 		}
diff --git a/validate.go b/validate.go
index 9275a5e..e6b42b5 100644
--- a/validate.go
+++ b/validate.go
@@ -311,7 +311,11 @@ func (r *RAML) validateExamples(base *BaseShape) error {
 		}
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		examples := base.Examples.Map
+		if base.Examples.Link != nil {
+			examples = base.Examples.Link.Map
+		}
+		for pair := examples.Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			if err := base.Validate(ex.Data.Value); err != nil {
 				return StacktraceNewWrapped("validate example", err, ex.Location,
-- 
2.43.0


From 4a9ddafe5a4c183572be7c3b8be15ae19809037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 19/53] fix: convert to plain JSON schema without a wrapper

---
 jsonschemaconv.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index d9b5d63..8ec861c 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -77,11 +77,18 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		Definitions: c.definitions,
 	}
 
+	return c.wrap(core, nil), nil
+}
+
+// wrap makes a schema of type T from the generic schema.
+func (c *JSONSchemaConverter[T]) wrap(core *JSONSchemaGeneric[T], base *BaseShape) T {
 	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil), nil
+		return c.opts.wrap(c, core, base)
 	}
-
-	return any(core).(T), nil
+	// NOTE: The constructor requires a wrapper for all schemas except the plain one.
+	plain, _ := any(core).(*JSONSchemaGeneric[*JSONSchema])
+	schema, _ := any(&JSONSchema{JSONSchemaGeneric: *plain}).(T)
+	return schema
 }
 
 func (c *JSONSchemaConverter[T]) Visit(s Shape) T {
@@ -473,18 +480,12 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 			core.Definitions[k] = c.recast(v)
 		}
 	}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.wrap(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeEmptySchema() T {
 	core := &JSONSchemaGeneric[T]{}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, nil)
-	}
-	return any(core).(T)
+	return c.wrap(core, nil)
 }
 
 func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
@@ -511,8 +512,5 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 	if base.Example != nil {
 		core.Examples = []any{base.Example.Data.Value}
 	}
-	if c.opts.wrap != nil {
-		return c.opts.wrap(c, core, base)
-	}
-	return any(core).(T)
+	return c.wrap(core, base)
 }
-- 
2.43.0


From 4083a1c965785863333e84612d6d69b9fd01d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 20/53] fix: give definitions of different recursive types
 different names

---
 jsonschemaconv.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 8ec861c..e18dc1a 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
+	"strings"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
 )
@@ -41,12 +43,17 @@ type JSONSchemaConverter[T jsonSchemaWrapper[T]] struct {
 	ShapeVisitor[T]
 
 	definitions map[string]T
+	// definitionNames contains unique names of definitions of recursive shapes.
+	definitionNames map[*BaseShape]string
 
 	opts JSONSchemaConverterOptions[T]
 }
 
 func NewJSONSchemaConverter[T jsonSchemaWrapper[T]](opt ...JSONSchemaConverterOpt[T]) (*JSONSchemaConverter[T], error) {
-	c := &JSONSchemaConverter[T]{definitions: make(map[string]T)}
+	c := &JSONSchemaConverter[T]{
+		definitions:     make(map[string]T),
+		definitionNames: make(map[*BaseShape]string),
+	}
 	for _, o := range opt {
 		o.apply(&c.opts)
 	}
@@ -67,13 +74,14 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 
 	entrypointName := s.Base().Name
 	c.definitions = make(map[string]T)
+	c.definitionNames = map[*BaseShape]string{s.Base(): entrypointName}
 	// NOTE: Assign empty schema before traversing to definitions to occupy the name.
 	c.definitions[entrypointName] = zero
 	c.definitions[entrypointName] = c.Visit(s)
 
 	core := &JSONSchemaGeneric[T]{
 		Version:     JSONSchemaVersion,
-		Ref:         "#/definitions/" + entrypointName,
+		Ref:         definitionRef(entrypointName),
 		Definitions: c.definitions,
 	}
 
@@ -351,19 +359,37 @@ func (c *JSONSchemaConverter[T]) VisitRecursiveShape(s *RecursiveShape) T {
 
 	head := s.Head.Shape
 	baseHead := head.Base()
-	// TODO: Type name is not unique, need pretty naming to avoid collisions.
-	definition := baseHead.Name
-	if _, ok := c.definitions[definition]; !ok {
+	// TODO: Type name is not unique, need prettier naming to avoid collisions.
+	definition, ok := c.definitionNames[baseHead]
+	if !ok {
+		definition = c.uniqueDefinitionName(baseHead.Name)
+		c.definitionNames[baseHead] = definition
 		// NOTE: Assign empty schema to definitions to occupy the name before traversing.
 		var placeholder T
 		c.definitions[definition] = placeholder
 		c.definitions[definition] = c.Visit(head)
 	}
-	schema.Ref = "#/definitions/" + definition
+	schema.Ref = definitionRef(definition)
 
 	return node
 }
 
+func (c *JSONSchemaConverter[T]) uniqueDefinitionName(name string) string {
+	unique := name
+	for i := 2; ; i++ {
+		if _, ok := c.definitions[unique]; !ok {
+			return unique
+		}
+		unique = name + "_" + strconv.Itoa(i)
+	}
+}
+
+// definitionRef returns a reference to the definition, which is a JSON pointer represented as URI fragment.
+func definitionRef(name string) string {
+	name = strings.NewReplacer("~", "~0", "/", "~1").Replace(name)
+	return "#" + (&url.URL{Fragment: "/definitions/" + name}).EscapedFragment()
+}
+
 func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	// Base RAML meta (annotations, facets) first …
 	node := c.makeSchemaFromBaseShape(s.Base())
-- 
2.43.0


From fdf8a44d34273e68af5251483e17d35881791274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 21/53] fix: reject number facets that are not finite

---
 scalars.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/scalars.go b/scalars.go
index 93dbc74..83fa2fa 100644
--- a/scalars.go
+++ b/scalars.go
@@ -280,6 +280,9 @@ func (s *IntegerShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 		if err := valueNode.Decode(&s.MultipleOf); err != nil {
 			return StacktraceNewWrapped("decode multipleOf", err, s.Location, WithNodePosition(valueNode))
 		}
+		if !isFinite(s.MultipleOf) {
+			return StacktraceNew("multipleOf must be finite", s.Location, WithNodePosition(valueNode))
+		}
 	case FacetFormat:
 		if _, ok := SetOfIntegerFormats[valueNode.Value]; !ok {
 			return StacktraceNew("invalid format", s.Location, WithNodePosition(valueNode),
@@ -318,6 +321,11 @@ func (s *IntegerShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 	return nil
 }
 
+// isFinite tells whether the facet is unset or can be represented as a JSON number.
+func isFinite(v *float64) bool {
+	return v == nil || !math.IsInf(*v, 0) && !math.IsNaN(*v)
+}
+
 type NumberFacets struct {
 	// Minimum and maximum are unset since there's no theoretical minimum and maximum for numbers by default
 	Minimum    *float64
@@ -483,10 +491,16 @@ func (s *NumberShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 			if err := valueNode.Decode(&s.Minimum); err != nil {
 				return StacktraceNewWrapped("decode minimum", err, s.Location, WithNodePosition(valueNode))
 			}
+			if !isFinite(s.Minimum) {
+				return StacktraceNew("minimum must be finite", s.Location, WithNodePosition(valueNode))
+			}
 		case FacetMaximum:
 			if err := valueNode.Decode(&s.Maximum); err != nil {
 				return StacktraceNewWrapped("decode maximum", err, s.Location, WithNodePosition(valueNode))
 			}
+			if !isFinite(s.Maximum) {
+				return StacktraceNew("maximum must be finite", s.Location, WithNodePosition(valueNode))
+			}
 		case FacetFormat:
 			if _, ok := SetOfNumberFormats[valueNode.Value]; !ok {
 				return StacktraceNew("invalid format", s.Location, WithNodePosition(valueNode),
@@ -505,6 +519,9 @@ func (s *NumberShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 			if err := valueNode.Decode(&s.MultipleOf); err != nil {
 				return StacktraceNewWrapped("decode multipleOf", err, s.Location, WithNodePosition(valueNode))
 			}
+			if !isFinite(s.MultipleOf) {
+				return StacktraceNew("multipleOf must be finite", s.Location, WithNodePosition(valueNode))
+			}
 		default:
 			n, err := s.raml.makeRootNode(valueNode, s.Location)
 			if err != nil {
-- 
2.43.0


From 97358aa68f3a1e0fb2e2334d65f364fb1c2097f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 22/53] fix: register unwrapped types in fragments

---
 unwrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unwrap.go b/unwrap.go
index eab196f..69a7398 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -38,9 +38,9 @@ func (r *RAML) unwrapTypes(
 		}
 		types.Set(pair.Key, us)
 		if isAnnotationType {
-			r.PutAnnotationTypeIntoFragment(us.Name, f.Location, base)
+			r.PutAnnotationTypeIntoFragment(pair.Key, f.Location, us)
 		} else {
-			r.PutTypeIntoFragment(us.Name, f.Location, base)
+			r.PutTypeIntoFragment(pair.Key, f.Location, us)
 		}
 	}
 	return st
-- 
2.43.0


From 5120236a0eb270e4bb4679d400f9d2c176cd9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 23/53] fix: process fragments and custom facets in the same
 order on every run

---
 raml.go     | 15 +++++++++++++++
 unwrap.go   |  4 ++--
 validate.go | 11 ++++++-----
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/raml.go b/raml.go
index f5657dc..6679e74 100644
--- a/raml.go
+++ b/raml.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 type HookKey string
@@ -203,6 +204,20 @@ func (r *RAML) GetFragment(location string) Fragment {
 	return r.fragmentsCache[location]
 }
 
+// sortedFragments returns all fragments ordered by location to process them in the same order on every run.
+func (r *RAML) sortedFragments() []Fragment {
+	locations := make([]string, 0, len(r.fragmentsCache))
+	for location := range r.fragmentsCache {
+		locations = append(locations, location)
+	}
+	sort.Strings(locations)
+	fragments := make([]Fragment, len(locations))
+	for i, location := range locations {
+		fragments[i] = r.fragmentsCache[location]
+	}
+	return fragments
+}
+
 // PutFragment puts a fragment.
 func (r *RAML) PutFragment(location string, fragment Fragment) {
 	if _, ok := r.fragmentsCache[location]; !ok {
diff --git a/unwrap.go b/unwrap.go
index 69a7398..94a204f 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -76,7 +76,7 @@ func (r *RAML) unwrapDataType(f *DataType) *stacktrace.StackTrace {
 
 func (r *RAML) unwrapFragments() *stacktrace.StackTrace {
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			se := r.unwrapLibrary(f)
@@ -146,7 +146,7 @@ func (r *RAML) UnwrapShapes() error {
 // markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
 func (r *RAML) markShapeRecursions() error {
 	// TODO: Maybe count shapes here?
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			for pair := f.AnnotationTypes.Oldest(); pair != nil; pair = pair.Next() {
diff --git a/validate.go b/validate.go
index e6b42b5..ae355ce 100644
--- a/validate.go
+++ b/validate.go
@@ -136,7 +136,7 @@ func (r *RAML) validateFragments(unwrapCache map[int64]*BaseShape) *stacktrace.S
 		return StacktraceNewWrapped("handle step", err, r.GetLocation())
 	}
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			if err := r.validateLibrary(f, unwrapCache); err != nil {
@@ -341,7 +341,7 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	// TODO: Doesn't support multiple inheritance.
 	inherits := base.Inherits
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
-	validationFacetDefs := make(map[string]Property)
+	validationFacetDefs := orderedmap.New[string, Property]()
 	for {
 		if len(inherits) == 0 {
 			break
@@ -353,14 +353,15 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 				return StacktraceNew("duplicate custom facet", f.Base.Location,
 					stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
 			}
-			validationFacetDefs[f.Name] = f
+			validationFacetDefs.Set(f.Name, f)
 		}
 		inherits = parent.Inherits
 	}
 
 	// Validate all unknown facets against facet definitions
 	shapeFacets := base.CustomShapeFacets
-	for k, facetDef := range validationFacetDefs {
+	for pair := validationFacetDefs.Oldest(); pair != nil; pair = pair.Next() {
+		k, facetDef := pair.Key, pair.Value
 		f, ok := shapeFacets.Get(k)
 		if !ok {
 			if facetDef.Required {
@@ -378,7 +379,7 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	// If we encounter an undefined facet - it's an error.
 	for pair := shapeFacets.Oldest(); pair != nil; pair = pair.Next() {
 		k, f := pair.Key, pair.Value
-		if _, ok := validationFacetDefs[k]; !ok {
+		if _, ok := validationFacetDefs.Get(k); !ok {
 			return StacktraceNew("unknown facet", f.Location, stacktrace.WithPosition(&f.Position),
 				stacktrace.WithInfo("facet", k))
 		}
-- 
2.43.0


From a4299d00430579706796ac717ac31a19f3cac576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 24/53] fix: let heirs of included types use their custom
 facets

---
 unwrap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unwrap.go b/unwrap.go
index 94a204f..5280f0c 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -347,6 +347,8 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 		}
 		source = us
 		base.Link = nil
+		// The linked type defines custom facets of the shape, as any other parent does.
+		base.Inherits = []*BaseShape{us}
 	case len(base.Inherits) > 0:
 		inherits := base.Inherits
 		// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
-- 
2.43.0


From 479745a29438f55db3c3a8e106b5ee41ffed6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 25/53] fix: report hook errors while resolving type
 expressions

---
 rdt_visitor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index e2e0083..c232e77 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make union member: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -95,7 +98,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 
 	defer visitor.raml.resolveNested()()
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make optional member: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -104,7 +110,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make nil member: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -121,7 +130,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 
 	defer visitor.raml.resolveNested()()
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make items: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
-- 
2.43.0


From 5c204086c9256094c028df6a6e3846c311e8431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 26/53] fix: do not skip hooks when a hook removes itself

---
 raml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raml.go b/raml.go
index 6679e74..0c1cb2d 100644
--- a/raml.go
+++ b/raml.go
@@ -74,7 +74,8 @@ func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
-			hooks = append(hooks[:i], hooks[i+1:]...)
+			// Hooks may be being called right now, so the list must not be modified in-place.
+			hooks = append(hooks[:i:i], hooks[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From 38e701d2c1c4146ea786acd3b1cff9ac1b53dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 27/53] fix: do not share values between a JSON schema and its
 deep copy

---
 schema.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/schema.go b/schema.go
index f0d4b2c..0e4a651 100644
--- a/schema.go
+++ b/schema.go
@@ -105,12 +105,16 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 
 	if len(js.Examples) > 0 {
 		newJs.Examples = make([]any, len(js.Examples))
-		copy(newJs.Examples, js.Examples)
+		for i, v := range js.Examples {
+			newJs.Examples[i] = copyValue(v)
+		}
 	}
 
 	if len(js.Enum) > 0 {
 		newJs.Enum = make([]any, len(js.Enum))
-		copy(newJs.Enum, js.Enum)
+		for i, v := range js.Enum {
+			newJs.Enum[i] = copyValue(v)
+		}
 	}
 
 	if len(js.AnyOf) > 0 {
@@ -134,6 +138,20 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 		}
 	}
 
+	newJs.Const = copyValue(js.Const)
+	newJs.Default = copyValue(js.Default)
+
+	newJs.AdditionalProperties = copyPtr(js.AdditionalProperties)
+	newJs.UniqueItems = copyPtr(js.UniqueItems)
+	newJs.MaxLength = copyPtr(js.MaxLength)
+	newJs.MinLength = copyPtr(js.MinLength)
+	newJs.MaxItems = copyPtr(js.MaxItems)
+	newJs.MinItems = copyPtr(js.MinItems)
+	newJs.MaxContains = copyPtr(js.MaxContains)
+	newJs.MinContains = copyPtr(js.MinContains)
+	newJs.MaxProperties = copyPtr(js.MaxProperties)
+	newJs.MinProperties = copyPtr(js.MinProperties)
+
 	newJs.Not = js.Not.DeepCopy()
 	newJs.If = js.If.DeepCopy()
 	newJs.Then = js.Then.DeepCopy()
@@ -425,7 +443,7 @@ func (js *JSONSchemaRAML) DeepCopy() *JSONSchemaRAML {
 	if js.Annotations != nil {
 		newJs.Annotations = orderedmap.New[string, any](js.Annotations.Len())
 		for p := js.Annotations.Oldest(); p != nil; p = p.Next() {
-			newJs.Annotations.Set(p.Key, p.Value)
+			newJs.Annotations.Set(p.Key, copyValue(p.Value))
 		}
 	}
 	if js.FacetDefinitions != nil {
@@ -437,7 +455,7 @@ func (js *JSONSchemaRAML) DeepCopy() *JSONSchemaRAML {
 	if js.FacetData != nil {
 		newJs.FacetData = orderedmap.New[string, any](js.FacetData.Len())
 		for p := js.FacetData.Oldest(); p != nil; p = p.Next() {
-			newJs.FacetData.Set(p.Key, p.Value)
+			newJs.FacetData.Set(p.Key, copyValue(p.Value))
 		}
 	}
 	return newJs
@@ -517,3 +535,31 @@ func boolPtr(p *bool) any {
 	}
 	return *p
 }
+
+func copyPtr[T any](p *T) *T {
+	if p == nil {
+		return nil
+	}
+	v := *p
+	return &v
+}
+
+// copyValue makes a deep copy of a data value, which consists of scalars, slices and maps.
+func copyValue(v any) any {
+	switch v := v.(type) {
+	case map[string]any:
+		out := make(map[string]any, len(v))
+		for k, item := range v {
+			out[k] = copyValue(item)
+		}
+		return out
+	case []any:
+		out := make([]any, len(v))
+		for i, item := range v {
+			out[i] = copyValue(item)
+		}
+		return out
+	default:
+		return v
+	}
+}
-- 
2.43.0


From f37fa362df53b4925db99143f0d2bd56af029bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 28/53] fix: clone the head of recursive types

---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 13ba4a7..95ac310 100644
--- a/complex.go
+++ b/complex.go
@@ -1071,9 +1071,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if c.Head != nil {
+		c.Head = c.Head.clone(clonedMap)
+	}
 	return &c
 }
 
-- 
2.43.0


From 6640669d9d482f1e9ba762dc8d373181353f779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 29/53] fix: give merged copies of nested shapes their own IDs

---
 shape.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shape.go b/shape.go
index 5cb8ea3..26c205c 100644
--- a/shape.go
+++ b/shape.go
@@ -192,6 +192,10 @@ func (s *BaseShape) inheritDetached(sourceBase *BaseShape) (*BaseShape, error) {
 	}
 	c := s.CloneShallow()
 	c.ShapeVisited = false
+	if s.raml != nil {
+		// The copy is a new shape, it must not be confused with the original one when both are cloned.
+		c.ID = s.raml.generateShapeID()
+	}
 	return c.Inherit(sourceBase)
 }
 
-- 
2.43.0


From bfebe95c213c8726a0c9b2d7fa940db6443cff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 30/53] fix: report nested shapes at their own location

---
 complex.go | 22 +++++++++++-----------
 scalars.go |  8 ++++----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/complex.go b/complex.go
index 95ac310..e4c4801 100644
--- a/complex.go
+++ b/complex.go
@@ -132,7 +132,7 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	} else if ss.Items != nil {
 		items, err := s.Items.inheritDetached(ss.Items)
 		if err != nil {
-			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
+			return nil, StacktraceNewWrapped("merge array items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 		s.Items = items
@@ -168,7 +168,7 @@ func (s *ArrayShape) check() error {
 	}
 	if s.Items != nil {
 		if err := s.Items.Check(); err != nil {
-			return StacktraceNewWrapped("check items", err, s.Location,
+			return StacktraceNewWrapped("check items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 	}
@@ -424,7 +424,7 @@ func (s *ObjectShape) validatePatternProperty(
 		if err == nil {
 			return true, nil
 		}
-		se := StacktraceNewWrapped("validate pattern property", err, s.Location,
+		se := StacktraceNewWrapped("validate pattern property", err, pp.Base.Location,
 			stacktrace.WithPosition(&pp.Base.Position),
 			stacktrace.WithInfo("property", pp.Pattern.String()))
 		if st == nil {
@@ -558,7 +558,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 		k, sourceProp := pair.Key, pair.Value
 		if targetProp, present := s.Properties.Get(k); present {
 			if sourceProp.Required && !targetProp.Required {
-				return StacktraceNew("cannot make required property optional", s.Location,
+				return StacktraceNew("cannot make required property optional", targetProp.Base.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithInfo("source", sourceProp.Required),
@@ -567,7 +567,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 			}
 			is, err := targetProp.Base.inheritDetached(sourceProp.Base)
 			if err != nil {
-				return StacktraceNewWrapped("inherit property", err, s.Location,
+				return StacktraceNewWrapped("inherit property", err, targetProp.Base.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
@@ -592,7 +592,7 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 			if targetProp, present := s.PatternProperties.Get(k); present {
 				is, err := targetProp.Base.inheritDetached(sourceProp.Base)
 				if err != nil {
-					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
+					return StacktraceNewWrapped("inherit pattern property", err, targetProp.Base.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
@@ -662,7 +662,7 @@ func (s *ObjectShape) checkPatternProperties() error {
 	for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.Check(); err != nil {
-			return StacktraceNewWrapped("check pattern property", err, s.Location,
+			return StacktraceNewWrapped("check pattern property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Pattern.String()))
 		}
@@ -678,7 +678,7 @@ func (s *ObjectShape) checkProperties() error {
 	for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.Check(); err != nil {
-			return StacktraceNewWrapped("check property", err, s.Location,
+			return StacktraceNewWrapped("check property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Name))
 		}
@@ -694,7 +694,7 @@ func (s *ObjectShape) checkProperties() error {
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
 		if !prop.Base.IsScalar() {
-			return StacktraceNew("discriminator property must be a scalar", s.Location,
+			return StacktraceNew("discriminator property must be a scalar", prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
@@ -875,7 +875,7 @@ func (s *UnionShape) validate(v interface{}, ctxPath string) error {
 			StacktraceNewWrapped(
 				"validate union member",
 				err,
-				s.Location,
+				item.Location,
 				stacktrace.WithPosition(&item.Position),
 				stacktrace.WithInfo("type", item.Type),
 				stacktrace.WithInfo("name", item.Name),
@@ -931,7 +931,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 func (s *UnionShape) check() error {
 	for _, item := range s.AnyOf {
 		if err := item.Check(); err != nil {
-			return StacktraceNewWrapped("check union member", err, s.Location,
+			return StacktraceNewWrapped("check union member", err, item.Location,
 				stacktrace.WithPosition(&item.Position))
 		}
 	}
diff --git a/scalars.go b/scalars.go
index 83fa2fa..a2de26d 100644
--- a/scalars.go
+++ b/scalars.go
@@ -242,7 +242,7 @@ func (s *IntegerShape) check() error {
 			switch e.Value.(type) {
 			case int, uint, uint64:
 			default:
-				return StacktraceNew("enum value must be int or uint", s.Location,
+				return StacktraceNew("enum value must be int or uint", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -471,7 +471,7 @@ func (s *NumberShape) check() error {
 			switch e.Value.(type) {
 			case int, uint, uint64, float64:
 			default:
-				return StacktraceNew("enum value must be int, uint, float64", s.Location,
+				return StacktraceNew("enum value must be int, uint, float64", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -661,7 +661,7 @@ func (s *StringShape) check() error {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(string); !ok {
 				return StacktraceNew("enum value must be string",
-					s.Location, stacktrace.WithPosition(&e.Position))
+					e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
@@ -940,7 +940,7 @@ func (s *BooleanShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(bool); !ok {
-				return StacktraceNew("enum value must be boolean", s.Location, stacktrace.WithPosition(&e.Position))
+				return StacktraceNew("enum value must be boolean", e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
-- 
2.43.0


From 60d2f0f812937c7ba079a024f83d21c65933d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 31/53] fix: report positions of data types and their uses

---
 fragment.go | 4 +++-
 parse.go    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fragment.go b/fragment.go
index abcb88b..ff3281b 100644
--- a/fragment.go
+++ b/fragment.go
@@ -332,7 +332,9 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 	}
 
 	shapeValue := &yaml.Node{
-		Kind: yaml.MappingNode,
+		Kind:   yaml.MappingNode,
+		Line:   value.Line,
+		Column: value.Column,
 	}
 	for i := 0; i != len(value.Content); i += 2 {
 		node := value.Content[i]
diff --git a/parse.go b/parse.go
index cdfb6d6..5a10b15 100644
--- a/parse.go
+++ b/parse.go
@@ -96,7 +96,7 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		sublib, err := r.parseLibrary(filepath.Join(baseDir, include.Value))
 		if err != nil {
 			return nil, StacktraceNewWrapped("parse library", err, dt.Location,
-				stacktrace.WithType(StacktraceTypeParsing))
+				stacktrace.WithType(StacktraceTypeParsing), stacktrace.WithPosition(&include.Position))
 		}
 		include.Link = sublib
 	}
-- 
2.43.0


From a737cfdd4624b1f72988060f3903acf50eee6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 32/53] fix: report positions of included values within the
 included file

---
 node.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index 728ab77..192b0f2 100644
--- a/node.go
+++ b/node.go
@@ -53,38 +53,43 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 			log.Fatal(fmt.Errorf("close file error: %w", err))
 		}
 	}(rdr)
+	// The value starts at the beginning of the included file.
+	pos := stacktrace.Position{Line: 1, Column: 1}
 	var value any
 	ext := filepath.Ext(node.Value)
 	switch ext {
 	default:
 		v, errDecode := io.ReadAll(rdr)
 		if errDecode != nil {
-			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath,
+				stacktrace.WithPosition(&pos))
 		}
 		value = string(v)
 	case ".json":
 		var data any
 		d := json.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
+				stacktrace.WithPosition(&pos))
 		}
 		value = data
 	case ".yaml", ".yml":
 		var data yaml.Node
 		d := yaml.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath,
+				stacktrace.WithPosition(&pos))
 		}
 		value, err = yamlNodeToDataNode(&data, fragmentPath, false)
 		if err != nil {
 			return nil, StacktraceNewWrapped("include: yaml node to data node", err, fragmentPath,
-				WithNodePosition(node))
+				stacktrace.WithPosition(&pos))
 		}
 	}
 	return &Node{
 		Value:    value,
 		Location: fragmentPath,
-		Position: stacktrace.Position{Line: node.Line, Column: node.Column},
+		Position: pos,
 		raml:     r,
 	}, nil
 }
@@ -156,6 +161,8 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 				log.Fatal(fmt.Errorf("close file error: %w", err))
 			}
 		}(r)
+		// The value starts at the beginning of the included file.
+		pos := stacktrace.Position{Line: 1, Column: 1}
 		// TODO: This logic should be more complex because content type may depend on the header reported
 		//  by remote server.
 		ext := filepath.Ext(node.Value)
@@ -164,7 +171,7 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 			v, errRead := io.ReadAll(r)
 			if errRead != nil {
 				return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath,
-					WithNodePosition(node))
+					stacktrace.WithPosition(&pos))
 			}
 			return string(v), nil
 		case ".yaml", ".yml":
@@ -172,7 +179,7 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 			d := yaml.NewDecoder(r)
 			if errDecode := d.Decode(&data); errDecode != nil {
 				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath,
-					WithNodePosition(node))
+					stacktrace.WithPosition(&pos))
 			}
 			return yamlNodeToDataNode(&data, fragmentPath, true)
 		}
-- 
2.43.0


From f98ca637e47dc78a39e1f574e80ab5a8bd24b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 33/53] fix: decode JSON files included in nested values

---
 node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node.go b/node.go
index 192b0f2..ebc237e 100644
--- a/node.go
+++ b/node.go
@@ -174,6 +174,14 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 					stacktrace.WithPosition(&pos))
 			}
 			return string(v), nil
+		case ".json":
+			var data any
+			d := json.NewDecoder(r)
+			if errDecode := d.Decode(&data); errDecode != nil {
+				return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
+					stacktrace.WithPosition(&pos))
+			}
+			return data, nil
 		case ".yaml", ".yml":
 			var data yaml.Node
 			d := yaml.NewDecoder(r)
-- 
2.43.0


From 1d896632c7b9aaaaea44e7491205f212b47eabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 34/53] fix: validate properties of instances in the same order
 on every run

---
 complex.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index e4c4801..68f25fe 100644
--- a/complex.go
+++ b/complex.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -463,7 +464,14 @@ func (s *ObjectShape) validateProperties(ctxPath string, props map[string]interf
 	}
 
 	restrictedAdditionalProperties := s.AdditionalProperties != nil && !*s.AdditionalProperties
-	for k, item := range props {
+	keys := make([]string, 0, len(props))
+	for k := range props {
+		keys = append(keys, k)
+	}
+	// Report the same error on every run.
+	sort.Strings(keys)
+	for _, k := range keys {
+		item := props[k]
 		// Explicitly defined properties have priority over pattern properties.
 		ctxPathK := ctxPath + "." + k
 
-- 
2.43.0


From 052aeabb355b984797f7c35bc0e706b1784fe6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 35/53] fix: look for custom facets among the ancestors of all
 parents

---
 validate.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/validate.go b/validate.go
index ae355ce..f311f1a 100644
--- a/validate.go
+++ b/validate.go
@@ -338,24 +338,24 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateShapeFacets, base); err != nil {
 		return err
 	}
-	// TODO: Doesn't support multiple inheritance.
+	// Custom facets may be defined by any ancestor.
 	inherits := base.Inherits
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
 	validationFacetDefs := orderedmap.New[string, Property]()
-	for {
-		if len(inherits) == 0 {
-			break
-		}
-		parent := inherits[0]
-		for pair := parent.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
-			f := pair.Value
-			if _, ok := shapeFacetDefs.Get(f.Name); ok {
-				return StacktraceNew("duplicate custom facet", f.Base.Location,
-					stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
+	for len(inherits) > 0 {
+		var ancestors []*BaseShape
+		for _, parent := range inherits {
+			for pair := parent.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
+				f := pair.Value
+				if _, ok := shapeFacetDefs.Get(f.Name); ok {
+					return StacktraceNew("duplicate custom facet", f.Base.Location,
+						stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
+				}
+				validationFacetDefs.Set(f.Name, f)
 			}
-			validationFacetDefs.Set(f.Name, f)
+			ancestors = append(ancestors, parent.Inherits...)
 		}
-		inherits = parent.Inherits
+		inherits = ancestors
 	}
 
 	// Validate all unknown facets against facet definitions
-- 
2.43.0


From dbbdb5aee399ef360d6befeca3744bf395b06462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 36/53] fix: load a library once that is used by data types it
 includes

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 5a10b15..644bf16 100644
--- a/parse.go
+++ b/parse.go
@@ -191,6 +191,8 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
+	// Data types included by the library may use it, so it must be known before its content is decoded.
+	r.PutFragment(path, lib)
 	if err := decoder.Decode(&lib); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -203,8 +205,6 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From e734fc753d9ddb06e20548347e1b2dcaaea1b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 37/53] fix: do not mark the shapes of detached clones as
 visited

---
 shape.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 26c205c..a2576e7 100644
--- a/shape.go
+++ b/shape.go
@@ -349,7 +349,13 @@ func (s *BaseShape) Clone(clonedMap map[int64]*BaseShape) *BaseShape {
 // NOTE: To avoid excessive memory copies and allocation, this method must be used only
 // when an independent shape copy is required. Otherwise, use Clone method.
 func (s *BaseShape) CloneDetached() *BaseShape {
-	return s.clone(make(map[int64]*BaseShape))
+	clonedMap := make(map[int64]*BaseShape)
+	c := s.clone(clonedMap)
+	for _, shape := range clonedMap {
+		// The original may be visited at the moment, an independent copy is not.
+		shape.ShapeVisited = false
+	}
+	return c
 }
 
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
-- 
2.43.0


From ce118eb08f20a98b8fc5e05879c9a791fba07a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 38/53] fix: accept integral JSON numbers in enums of integers

---
 scalars.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scalars.go b/scalars.go
index a2de26d..3d072ed 100644
--- a/scalars.go
+++ b/scalars.go
@@ -239,12 +239,17 @@ func (s *IntegerShape) check() error {
 	}
 	if s.Enum != nil {
 		for _, e := range s.Enum {
-			switch e.Value.(type) {
+			switch v := e.Value.(type) {
 			case int, uint, uint64:
-			default:
-				return StacktraceNew("enum value must be int or uint", e.Location,
-					stacktrace.WithPosition(&e.Position))
+				continue
+			case float64:
+				// Numbers in JSON are floating point numbers.
+				if v == math.Trunc(v) && !math.IsInf(v, 0) {
+					continue
+				}
 			}
+			return StacktraceNew("enum value must be int or uint", e.Location,
+				stacktrace.WithPosition(&e.Position))
 		}
 	}
 	// invalid format, found by copilot =)
-- 
2.43.0


From 49b6000fc25edf2e6e41a02abdcce55d0d590898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 39/53] fix: validate custom facet definitions and shapes
 behind recursive shapes

---
 raml.go     |  2 ++
 validate.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/raml.go b/raml.go
index 0c1cb2d..47cb582 100644
--- a/raml.go
+++ b/raml.go
@@ -28,6 +28,8 @@ type RAML struct {
 	unresolvedShapes list.List
 	// resolving contains shapes whose type is being resolved to detect types that depend on themselves.
 	resolving map[*BaseShape]bool
+	// validated contains shapes visited by validation to visit the heads of recursive shapes once.
+	validated map[*BaseShape]struct{}
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/validate.go b/validate.go
index f311f1a..632e2aa 100644
--- a/validate.go
+++ b/validate.go
@@ -209,6 +209,9 @@ func (r *RAML) ValidateShapes() error {
 	// to ensure the original references (aliases and links) match.
 	unwrapCache := make(map[int64]*BaseShape)
 
+	r.validated = make(map[*BaseShape]struct{})
+	defer func() { r.validated = nil }()
+
 	st := r.validateFragments(unwrapCache)
 
 	if se := r.validateDomainExtensions(unwrapCache); se != nil {
@@ -258,6 +261,9 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateShapeCommons, s); err != nil {
 		return err
 	}
+	if r.validated != nil {
+		r.validated[s] = struct{}{}
+	}
 	if err := r.validateShapeFacets(s); err != nil {
 		return err
 	}
@@ -284,11 +290,21 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 					stacktrace.WithPosition(&shape.Base().Position))
 			}
 		}
+	case *RecursiveShape:
+		// Types that share their parts may reach the head through recursive shapes only.
+		if err := r.validateRecursionHead(shape.Head); err != nil {
+			return StacktraceNewWrapped("validate recursion head", err, shape.Base().Location,
+				stacktrace.WithPosition(&shape.Base().Position))
+		}
 	}
 
 	// Validate trait definition shapes
 	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 		facetDef := pair.Value
+		if err := facetDef.Base.Check(); err != nil {
+			return StacktraceNewWrapped("check custom facet definition", err, facetDef.Base.Location,
+				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
+		}
 		if err := r.validateShapeCommons(facetDef.Base); err != nil {
 			return StacktraceNewWrapped("validate custom facet definition", err, facetDef.Base.Location,
 				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
@@ -298,6 +314,19 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	return nil
 }
 
+func (r *RAML) validateRecursionHead(head *BaseShape) error {
+	if r.validated == nil || head == nil {
+		return nil
+	}
+	if _, ok := r.validated[head]; ok {
+		return nil
+	}
+	if err := head.Check(); err != nil {
+		return StacktraceNewWrapped("check", err, head.Location, stacktrace.WithPosition(&head.Position))
+	}
+	return r.validateShapeCommons(head)
+}
+
 const HookBeforeValidateExamples HookKey = "RAML.validateExamples"
 
 func (r *RAML) validateExamples(base *BaseShape) error {
-- 
2.43.0


From 79fbb234c3952fd6a26401c9266be3bf96923d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 40/53] fix: reject properties that are no map and fractional
 lengths and counts

---
 complex.go | 11 +++++++----
 scalars.go | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/complex.go b/complex.go
index 68f25fe..af2b47a 100644
--- a/complex.go
+++ b/complex.go
@@ -187,13 +187,13 @@ func (s *ArrayShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinItems:
-			if err := valueNode.Decode(&s.MinItems); err != nil {
+			if err := decodeCount(valueNode, &s.MinItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMinItems))
 			}
 		case FacetMaxItems:
-			if err := valueNode.Decode(&s.MaxItems); err != nil {
+			if err := decodeCount(valueNode, &s.MaxItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMaxItems))
@@ -295,18 +295,21 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetDiscriminatorValue))
 		}
 	case FacetMinProperties:
-		if err := valueNode.Decode(&s.MinProperties); err != nil {
+		if err := decodeCount(valueNode, &s.MinProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMinProperties))
 		}
 	case FacetMaxProperties:
-		if err := valueNode.Decode(&s.MaxProperties); err != nil {
+		if err := decodeCount(valueNode, &s.MaxProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMaxProperties))
 		}
 	case FacetProperties:
+		if valueNode.Kind != yaml.MappingNode && valueNode.Tag != TagNull {
+			return StacktraceNew("properties must be map", s.Location, WithNodePosition(valueNode))
+		}
 		if len(valueNode.Content)%2 != 0 {
 			return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
 		}
diff --git a/scalars.go b/scalars.go
index 3d072ed..f0b6214 100644
--- a/scalars.go
+++ b/scalars.go
@@ -327,6 +327,15 @@ func (s *IntegerShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 }
 
 // isFinite tells whether the facet is unset or can be represented as a JSON number.
+// decodeCount decodes a length or a number of elements.
+func decodeCount(node *yaml.Node, v **uint64) error {
+	var f *float64
+	if err := node.Decode(&f); err == nil && f != nil && *f != math.Trunc(*f) {
+		return fmt.Errorf("value must be an integer, got %s", node.Value)
+	}
+	return node.Decode(v)
+}
+
 func isFinite(v *float64) bool {
 	return v == nil || !math.IsInf(*v, 0) && !math.IsNaN(*v)
 }
@@ -683,11 +692,11 @@ func (s *StringShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeCount(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeCount(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetPattern:
@@ -837,11 +846,11 @@ func (s *FileShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeCount(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeCount(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetFileTypes:
-- 
2.43.0


From aa4842f2cc3015f34dfb0029848a8c7b61bc07c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 41/53] fix: report the location of items and union members
 that validation rejects

---
 validate.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validate.go b/validate.go
index 632e2aa..e1b0859 100644
--- a/validate.go
+++ b/validate.go
@@ -279,15 +279,15 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	case *ArrayShape:
 		if shape.Items != nil {
 			if err := r.validateShapeCommons(shape.Items); err != nil {
-				return StacktraceNewWrapped("validate items", err, shape.Base().Location,
-					stacktrace.WithPosition(&shape.Base().Position))
+				return StacktraceNewWrapped("validate items", err, shape.Items.Location,
+					stacktrace.WithPosition(&shape.Items.Position))
 			}
 		}
 	case *UnionShape:
 		for _, item := range shape.AnyOf {
 			if err := r.validateShapeCommons(item); err != nil {
-				return StacktraceNewWrapped("validate union item", err, shape.Base().Location,
-					stacktrace.WithPosition(&shape.Base().Position))
+				return StacktraceNewWrapped("validate union item", err, item.Location,
+					stacktrace.WithPosition(&item.Position))
 			}
 		}
 	case *RecursiveShape:
-- 
2.43.0


From 42d780cb68c2a0e7862dad73d4ff16711a0dfcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 42/53] fix: reject heirs of datetime that replace the default
 format

---
 scalars.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index f0b6214..7a181d6 100644
--- a/scalars.go
+++ b/scalars.go
@@ -1054,11 +1054,15 @@ func (s *DateTimeShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	sourceFormat := DateTimeFormatRFC3339
+	if ss.Format != nil {
+		sourceFormat = *ss.Format
+	}
 	if s.Format == nil {
 		s.Format = ss.Format
-	} else if ss.Format != nil && *s.Format != *ss.Format {
+	} else if *s.Format != sourceFormat {
 		return nil, StacktraceNew("format constraint violation", s.Location, stacktrace.WithPosition(&s.Position),
-			stacktrace.WithInfo("source", *ss.Format), stacktrace.WithInfo("target", *s.Format))
+			stacktrace.WithInfo("source", sourceFormat), stacktrace.WithInfo("target", *s.Format))
 	}
 	return s, nil
 }
-- 
2.43.0


From 5d7545d6e7dee8da26a7964e4ebac0ba31719916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 43/53] fix: keep hooks appended to stores with derived
 contexts apart

AppendHook could extend the shared list in-place, so that a hook appended
to one store replaced the hook of another one.
---
 raml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raml.go b/raml.go
index 47cb582..ab5b01c 100644
--- a/raml.go
+++ b/raml.go
@@ -62,7 +62,8 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
-	hooks = append(hooks, hook)
+	// Stores whose contexts derive from each other share the list, so it must not be extended in-place.
+	hooks = append(hooks[:len(hooks):len(hooks)], hook)
 	r.setHooks(key, hooks)
 }
 
-- 
2.43.0


From 137d5a7d07e4e51076dbd3a8cb7b23a1876d4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 44/53] fix: reject the internal type json in RAML

It made a JSON shape without a schema, and converting it to JSON schema
crashed.
---
 shape.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shape.go b/shape.go
index a2576e7..b08411a 100644
--- a/shape.go
+++ b/shape.go
@@ -698,6 +698,9 @@ func (r *RAML) makeShapeType(
 						WithNodePosition(shapeTypeNode))
 				}
 				return shapeType, s, nil
+			} else if shapeType == TypeJSON {
+				return "", nil, StacktraceNew("type cannot be used in RAML", location,
+					WithNodePosition(shapeTypeNode), stacktrace.WithInfo("type", shapeType))
 			}
 		case TagInclude:
 			baseDir := filepath.Dir(location)
-- 
2.43.0


From fa1e3c793610658b4fc9512fc16fd64e077d971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:52 +0000
Subject: [PATCH 45/53] fix: copy empty maps of a JSON schema

---
 schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema.go b/schema.go
index 0e4a651..12e2158 100644
--- a/schema.go
+++ b/schema.go
@@ -159,21 +159,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	newJs.Items = js.Items.DeepCopy()
 	newJs.PropertyNames = js.PropertyNames.DeepCopy()
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		newJs.Properties = orderedmap.New[string, T](js.Properties.Len())
 		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
 			newJs.Properties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		newJs.PatternProperties = orderedmap.New[string, T](js.PatternProperties.Len())
 		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			newJs.PatternProperties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if len(js.Definitions) > 0 {
+	if js.Definitions != nil {
 		newJs.Definitions = make(map[string]T, len(js.Definitions))
 		for k, v := range js.Definitions {
 			newJs.Definitions[k] = v.DeepCopy()
-- 
2.43.0


From f078d5d54e7105f38aac2bec223889175579791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:53 +0000
Subject: [PATCH 46/53] fix: give copies of union members new shape IDs
 throughout

---
 complex.go |  4 +---
 shape.go   | 25 +++++++++++++++++++++----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/complex.go b/complex.go
index af2b47a..1525914 100644
--- a/complex.go
+++ b/complex.go
@@ -917,9 +917,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.CloneDetached()
-				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-				cs.ID = s.raml.generateShapeID()
+				cs := s.raml.cloneRenewed(targetMember)
 				ms, err := cs.Inherit(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
diff --git a/shape.go b/shape.go
index b08411a..cc6da13 100644
--- a/shape.go
+++ b/shape.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"sort"
 	"sync/atomic"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -214,10 +215,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.CloneDetached()
-			tc.ID = s.raml.generateShapeID()
-			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-			// tc.ID = generateShapeID()
+			tc := s.raml.cloneRenewed(s)
 			is, err := tc.Inherit(source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
@@ -349,7 +347,26 @@ func (s *BaseShape) Clone(clonedMap map[int64]*BaseShape) *BaseShape {
 // NOTE: To avoid excessive memory copies and allocation, this method must be used only
 // when an independent shape copy is required. Otherwise, use Clone method.
 func (s *BaseShape) CloneDetached() *BaseShape {
+	return s.cloneDetached(make(map[int64]*BaseShape))
+}
+
+// cloneRenewed creates a detached deep copy that consists of new shapes: all of them get new IDs,
+// so that they are not confused with the original ones when both are cloned later.
+func (r *RAML) cloneRenewed(s *BaseShape) *BaseShape {
 	clonedMap := make(map[int64]*BaseShape)
+	c := s.cloneDetached(clonedMap)
+	ids := make([]int64, 0, len(clonedMap))
+	for id := range clonedMap {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
+	for _, id := range ids {
+		clonedMap[id].ID = r.generateShapeID()
+	}
+	return c
+}
+
+func (s *BaseShape) cloneDetached(clonedMap map[int64]*BaseShape) *BaseShape {
 	c := s.clone(clonedMap)
 	for _, shape := range clonedMap {
 		// The original may be visited at the moment, an independent copy is not.
-- 
2.43.0


From 2b3b61915efef1088001c71fcf466f0ce69756eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:54 +0000
Subject: [PATCH 47/53] fix: reject file types that are JSON objects while
 parsing

---
 scalars.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalars.go b/scalars.go
index 7a181d6..f416be1 100644
--- a/scalars.go
+++ b/scalars.go
@@ -866,6 +866,10 @@ func (s *FileShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 				if err != nil {
 					return StacktraceNewWrapped("make node fileTypes", err, s.Location, WithNodePosition(v))
 				}
+				// NOTE: A string that holds a JSON object is decoded into the object.
+				if _, ok := n.Value.(string); !ok {
+					return StacktraceNew("member of fileTypes must be string", s.Location, WithNodePosition(v))
+				}
 				fileTypes[i] = n
 			}
 			s.FileTypes = fileTypes
-- 
2.43.0


From 445967b46b96da80e265bcdb3fd91181f6989073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 48/53] fix: report a failure of the command if any of the
 files is invalid

---
 cmd/raml/validate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/raml/validate.go b/cmd/raml/validate.go
index b20bdb9..87b6265 100644
--- a/cmd/raml/validate.go
+++ b/cmd/raml/validate.go
@@ -27,21 +27,22 @@ func NewValidateCmd(opts ValidateOptions, args []string) *ValidateCommand {
 }
 
 func (v ValidateCommand) Execute(ctx context.Context) error {
-	var err error
+	invalid := false
 	var stOpts []stacktrace.TracesOpt
 	if v.Opts.EnsureDuplicates {
 		stOpts = append(stOpts, stacktrace.WithEnsureDuplicates())
 	}
 	for _, arg := range v.Args {
 		slog.Info("Validating RAML...", slog.String("path", arg))
-		_, err = raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
+		_, err := raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
 		if err != nil {
+			invalid = true
 			slog.Error("RAML is invalid", slogex.ErrToSlogAttr(err, stOpts...))
 		} else {
 			slog.Info("RAML is valid", slog.String("path", arg))
 		}
 	}
-	if err != nil {
+	if invalid {
 		return fmt.Errorf("errors have been found in the RAML files")
 	}
 	return nil
-- 
2.43.0


From c744931d81a859bf18b20061ef4fb52caee2de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 49/53] fix: accept the flag --ensure-duplicates

---
 cmd/raml/raml.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/raml/raml.go b/cmd/raml/raml.go
index 6797873..b4e3880 100644
--- a/cmd/raml/raml.go
+++ b/cmd/raml/raml.go
@@ -57,14 +57,15 @@ func mainFn() int {
 	defer stop()
 
 	cmdValidate := func() *cobra.Command {
-		opts := ValidateOptions{
-			EnsureDuplicates: ensureDuplicates,
-		}
 		cmd := &cobra.Command{
 			Use:   "validate",
 			Short: "validate raml files",
 			Args:  cobra.MinimumNArgs(1),
 			RunE: func(_ *cobra.Command, args []string) error {
+				// NOTE: Flags are known only after the command line is parsed.
+				opts := ValidateOptions{
+					EnsureDuplicates: ensureDuplicates,
+				}
 				return InitLoggingAndRun(ctx, verbosity, NewValidateCmd(opts, args))
 			},
 		}
@@ -84,7 +85,7 @@ func mainFn() int {
 		}
 
 		cmd.PersistentFlags().CountVarP(&verbosity, "verbosity", "v", "increase verbosity level: -v for debug")
-		cmd.Flags().BoolVarP(&ensureDuplicates, "ensure-duplicates", "d", false,
+		cmd.PersistentFlags().BoolVarP(&ensureDuplicates, "ensure-duplicates", "d", false,
 			"ensure that there are no duplicates in tracebacks")
 
 		cmd.AddCommand(
-- 
2.43.0


From f5f937630cec5ef4ba600a533244da8b7d78306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 50/53] fix: keep memory addresses out of errors of integer
 facets

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index f416be1..3e8c501 100644
--- a/scalars.go
+++ b/scalars.go
@@ -320,7 +320,7 @@ func (s *IntegerShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 		node := v[i]
 		valueNode := v[i+1]
 		if err := s.unmarshalYAMLNode(node, valueNode); err != nil {
-			return fmt.Errorf("unmarshal %v: %v: %w", node, valueNode, err)
+			return fmt.Errorf("unmarshal %s: %w", node.Value, err)
 		}
 	}
 	return nil
-- 
2.43.0


From 1667099676662e955dff91ef9f2787f566529b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 51/53] fix: reject data after the value of an included JSON
 file

---
 node.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index ebc237e..b6ff43a 100644
--- a/node.go
+++ b/node.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -66,9 +67,8 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 		}
 		value = string(v)
 	case ".json":
-		var data any
-		d := json.NewDecoder(rdr)
-		if errDecode := d.Decode(&data); errDecode != nil {
+		data, errDecode := decodeJSON(rdr)
+		if errDecode != nil {
 			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
 				stacktrace.WithPosition(&pos))
 		}
@@ -128,6 +128,19 @@ func (r *RAML) makeYamlNode(node *yaml.Node, location string) (*Node, error) {
 	}, nil
 }
 
+// decodeJSON decodes a document that consists of one JSON value.
+func decodeJSON(r io.Reader) (any, error) {
+	var data any
+	d := json.NewDecoder(r)
+	if err := d.Decode(&data); err != nil {
+		return nil, fmt.Errorf("decode: %w", err)
+	}
+	if _, err := d.Token(); !errors.Is(err, io.EOF) {
+		return nil, fmt.Errorf("unexpected data after the value")
+	}
+	return data, nil
+}
+
 func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any, error) {
 	switch node.Tag {
 	default:
@@ -175,9 +188,8 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 			}
 			return string(v), nil
 		case ".json":
-			var data any
-			d := json.NewDecoder(r)
-			if errDecode := d.Decode(&data); errDecode != nil {
+			data, errDecode := decodeJSON(r)
+			if errDecode != nil {
 				return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
 					stacktrace.WithPosition(&pos))
 			}
-- 
2.43.0


From dc08ca4fb68b440523f2bd87e29f5d30877dc421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:28 +0000
Subject: [PATCH 52/53] fix: let aliases and heirs of recursive types wait for
 what these inherit

An alias or an heir of a type that was still being unwrapped copied what the type
had at the moment, without the facets the type itself inherits. Such models accepted
values that do not conform, and conversion to JSON schema could overflow the stack.
---
 shape.go  |  4 ++++
 unwrap.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/shape.go b/shape.go
index cc6da13..7b21f8d 100644
--- a/shape.go
+++ b/shape.go
@@ -69,6 +69,10 @@ type BaseShape struct {
 
 	// Controlled by UnwrapShape
 	unwrapped bool
+	// Set by UnwrapShape while the shape does not have all that it inherits yet.
+	unwrapping bool
+	// Completes the aliases and heirs of the shape that were unwrapped in the meantime.
+	whenUnwrapped []func(base *BaseShape) error
 	// NOTE: Not thread safe and should be used only in one method simultaneously.
 	ShapeVisited bool
 
diff --git a/unwrap.go b/unwrap.go
index 5280f0c..3d40503 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -427,8 +427,13 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		r.PutShape(base)
+		if us.unwrapping {
+			us.whenUnwrapped = append(us.whenUnwrapped, base.completeAlias)
+		}
 		return base.AliasTo(us)
 	}
+	target := base
+	target.unwrapping = true
 
 	source, err := r.unwrapParents(base)
 	if err != nil {
@@ -454,6 +459,13 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 		base.CustomShapeFacetDefinitions.Set(pair.Key, prop)
 	}
 
+	if source != nil && source.unwrapping && len(base.Inherits) == 1 && !isUnion(base) && !isUnion(source) {
+		// The parent refers to the shape and does not have all that it inherits itself yet.
+		source.whenUnwrapped = append(source.whenUnwrapped, target.completeHeir)
+		r.PutShape(base)
+		return base, nil
+	}
+
 	if source != nil {
 		// Base shape inherits properties of the source shape in-place.
 		is, errInherit := base.Inherit(source)
@@ -463,6 +475,48 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 		}
 		base = is
 	}
+	if err = target.complete(base); err != nil {
+		return nil, StacktraceNewWrapped("unwrap aliases and heirs", err, base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+	}
 	r.PutShape(base)
 	return base, nil
 }
+
+func isUnion(base *BaseShape) bool {
+	_, ok := base.Shape.(*UnionShape)
+	return ok
+}
+
+// complete ends unwrapping of the shape with the given result, which its aliases and heirs have waited for.
+func (s *BaseShape) complete(unwrapped *BaseShape) error {
+	s.unwrapping = false
+	waiting := s.whenUnwrapped
+	s.whenUnwrapped = nil
+	for _, f := range waiting {
+		if err := f(unwrapped); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// completeAlias aliases the shape to the unwrapped one.
+func (s *BaseShape) completeAlias(unwrapped *BaseShape) error {
+	// Types do not inherit definitions of custom facets, and these definitions have none of their own.
+	defs := s.CustomShapeFacetDefinitions
+	_, err := s.AliasTo(unwrapped)
+	s.CustomShapeFacetDefinitions = defs
+	return err
+}
+
+// completeHeir lets the shape inherit from its unwrapped parent.
+func (s *BaseShape) completeHeir(parent *BaseShape) error {
+	s.Inherits[0] = parent
+	is, err := s.Inherit(parent)
+	if err != nil {
+		return StacktraceNewWrapped("merge shapes", err, s.Location,
+			stacktrace.WithPosition(&s.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+	}
+	return s.complete(is)
+}
-- 
2.43.0


From 884275f5958967df9458e5fa05be652eb7a3f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:09 +0000
Subject: [PATCH 53/53] fix: do not merge a recursive type with itself

A property that an heir declares with the same type once more was merged with the one
of the parent. If the type was recursive and did not have all that it inherits yet, the
copy never got it: such models accepted values that do not conform, and their processing
could need exponential time or not terminate.
---
 complex.go |  5 ++++-
 shape.go   | 20 ++++++++++++++++++++
 unwrap.go  |  1 +
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 1525914..3f4078a 100644
--- a/complex.go
+++ b/complex.go
@@ -915,7 +915,10 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 	for _, sourceMember := range ss.AnyOf {
 		var filtered []*BaseShape
 		for _, targetMember := range s.AnyOf {
-			if sourceMember.Type == targetMember.Type {
+			if sourceMember.unaliased() == targetMember.unaliased() {
+				// The same type, there is nothing to inherit.
+				filtered = append(filtered, targetMember)
+			} else if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
 				cs := s.raml.cloneRenewed(targetMember)
 				ms, err := cs.Inherit(sourceMember)
diff --git a/shape.go b/shape.go
index 7b21f8d..3bde6d4 100644
--- a/shape.go
+++ b/shape.go
@@ -73,6 +73,8 @@ type BaseShape struct {
 	unwrapping bool
 	// Completes the aliases and heirs of the shape that were unwrapped in the meantime.
 	whenUnwrapped []func(base *BaseShape) error
+	// The type that the shape was an alias of before unwrapping.
+	aliasOf *BaseShape
 	// NOTE: Not thread safe and should be used only in one method simultaneously.
 	ShapeVisited bool
 
@@ -187,6 +189,14 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	return s, nil
 }
 
+// unaliased returns the type that the shape was an alias of, or the shape itself.
+func (s *BaseShape) unaliased() *BaseShape {
+	if s.aliasOf != nil {
+		return s.aliasOf
+	}
+	return s
+}
+
 // inheritDetached inherits a copy of the shape from the source and returns the copy.
 //
 // Nested shapes (properties, items, union members) may be shared with other types through aliases and inheritance,
@@ -195,7 +205,12 @@ func (s *BaseShape) inheritDetached(sourceBase *BaseShape) (*BaseShape, error) {
 	if sourceBase.ShapeVisited {
 		return s, nil
 	}
+	if s.unaliased() == sourceBase.unaliased() {
+		// The same type, there is nothing to inherit. It may be incomplete yet if it is recursive.
+		return s, nil
+	}
 	c := s.CloneShallow()
+	c.aliasOf = nil
 	c.ShapeVisited = false
 	if s.raml != nil {
 		// The copy is a new shape, it must not be confused with the original one when both are cloned.
@@ -217,6 +232,10 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		if _, ok := source.Shape.(*AnyShape); ok {
 			return s, nil
 		}
+		// There is nothing to inherit from the same type.
+		if source.unaliased() == s.unaliased() {
+			return s, nil
+		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
 			tc := s.raml.cloneRenewed(s)
@@ -385,6 +404,7 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	}
 
 	c := *s
+	c.aliasOf = nil
 	clonedMap[s.ID] = &c
 
 	// TODO: Node is not deep copied yet, but it's not mutated anyway
diff --git a/unwrap.go b/unwrap.go
index 3d40503..0677f0a 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -427,6 +427,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		r.PutShape(base)
+		base.aliasOf = us.unaliased()
 		if us.unwrapping {
 			us.whenUnwrapped = append(us.whenUnwrapped, base.completeAlias)
 		}
-- 
2.43.0

