From 7e6e624656429ad385b55c44a50947976e14e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 01/55] fix: order package markers and marker errors by their
 place in the source

---
 pkg/markers/collect.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 23f52e3..afad5f7 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"sort"
 	"strings"
 	"sync"
 
@@ -99,7 +100,14 @@ func (c *Collector) MarkersInPackage(pkg *loader.Package) (map[ast.Node]MarkerVa
 func (c *Collector) parseMarkersInPackage(nodeMarkersRaw map[ast.Node][]markerComment) (map[ast.Node]MarkerValues, error) {
 	var errors []error
 	nodeMarkerValues := make(map[ast.Node]MarkerValues)
-	for node, markersRaw := range nodeMarkersRaw {
+	nodes := make([]ast.Node, 0, len(nodeMarkersRaw))
+	for node := range nodeMarkersRaw {
+		nodes = append(nodes, node)
+	}
+	// report errors in source order
+	sort.Slice(nodes, func(i, j int) bool { return nodes[i].Pos() < nodes[j].Pos() })
+	for _, node := range nodes {
+		markersRaw := nodeMarkersRaw[node]
 		var target TargetType
 		switch node.(type) {
 		case *ast.File:
@@ -192,6 +200,11 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 		}
 		visitor.nodeMarkers[node] = markers[:endOfMarkers] // re-set after trimming the package markers
 	}
+	// markers moved from types were found in no particular order, and belong
+	// at their place in the source.
+	sort.SliceStable(visitor.pkgMarkers, func(i, j int) bool {
+		return visitor.pkgMarkers[i].Pos() < visitor.pkgMarkers[j].Pos()
+	})
 	visitor.nodeMarkers[file] = visitor.pkgMarkers
 
 	return visitor.nodeMarkers
-- 
2.43.0


From 5c353c2b4ed7e19396ab3fe62fbbeb0720c080cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 02/55] fix: apply schema markers of equal priority in a fixed
 order

---
 pkg/crd/schema.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..c0b29a2 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -148,8 +148,14 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -189,8 +195,9 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	// keep the order of names, and of the repetitions of one name, within a priority
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From 1392f8d51f99720fe920accada278980dbc70aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 03/55] fix: apply the Type marker before listType, which
 depends on it

---
 pkg/crd/markers/validation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index e1cad59..6c6747e 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -515,7 +515,8 @@ func (m Type) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
 }
 
 func (m Type) ApplyPriority() ApplyPriority {
-	return ApplyPriorityDefault - 1
+	// ahead of listType, which is itself ahead of the other markers
+	return ApplyPriorityDefault - 2
 }
 
 func (m Nullable) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
-- 
2.43.0


From 5d8ebf5686570d22858ec0b7e3a5943a7327f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 04/55] fix: apply CRD markers in a fixed order, skipped
 versions last

---
 pkg/crd/spec.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..e50f4cb 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -24,6 +24,7 @@ import (
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
 	"sigs.k8s.io/controller-tools/pkg/loader"
 )
 
@@ -60,6 +61,15 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// map iteration order must not decide which version's markers win, nor
+	// where errors are reported
+	sort.Slice(packages, func(i, j int) bool {
+		vi, vj := p.GroupVersions[packages[i]].Version, p.GroupVersions[packages[j]].Version
+		if vi != vj {
+			return vi < vj
+		}
+		return packages[i].ID < packages[j].ID
+	})
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -113,8 +123,21 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		markerNames := make([]string, 0, len(typeInfo.Markers))
+		for markerName := range typeInfo.Markers {
+			markerNames = append(markerNames, markerName)
+		}
+		// skipping a version removes it, so that has to come after the other markers of that version
+		sort.Slice(markerNames, func(i, j int) bool {
+			skipI, skipJ := isSkipVersion(typeInfo.Markers[markerNames[i]]), isSkipVersion(typeInfo.Markers[markerNames[j]])
+			if skipI != skipJ {
+				return skipJ
+			}
+			return markerNames[i] < markerNames[j]
+		})
+
+		for _, markerName := range markerNames {
+			for _, val := range typeInfo.Markers[markerName] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
@@ -174,3 +197,13 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 
 	p.CustomResourceDefinitions[groupKind] = crd
 }
+
+// isSkipVersion checks whether the given values of one marker skip a version.
+func isSkipVersion(markerVals []interface{}) bool {
+	for _, val := range markerVals {
+		if _, isSkip := val.(crdmarkers.SkipVersion); isSkip {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 7b143948c1ec0f8dca03550fc4bec7b477b429c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 05/55] fix: list each version of a CRD only once

---
 pkg/crd/spec.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e50f4cb..72ddfcf 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -70,6 +70,7 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		return packages[i].ID < packages[j].ID
 	})
+	packages = p.dropRepeatedVersions(groupKind, packages)
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -198,6 +199,28 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 	p.CustomResourceDefinitions[groupKind] = crd
 }
 
+// dropRepeatedVersions keeps only the first of the given packages to define each version of
+// the given group-kind.  The same package may turn up more than once (when it's loaded from
+// several modules), but distinct packages can't define the same version.
+func (p *Parser) dropRepeatedVersions(groupKind schema.GroupKind, packages []*loader.Package) []*loader.Package {
+	var kept []*loader.Package
+	definedIn := make(map[string]*loader.Package, len(packages))
+	for _, pkg := range packages {
+		if typeInfo := p.Types[TypeIdent{Package: pkg, Name: groupKind.Kind}]; typeInfo != nil {
+			version := p.GroupVersions[pkg].Version
+			if other, exists := definedIn[version]; exists {
+				if other.PkgPath != pkg.PkgPath {
+					pkg.AddError(loader.ErrFromNode(fmt.Errorf("version %q of CRD for %s is already defined in package %s", version, groupKind, other.PkgPath), typeInfo.RawSpec))
+				}
+				continue
+			}
+			definedIn[version] = pkg
+		}
+		kept = append(kept, pkg)
+	}
+	return kept
+}
+
 // isSkipVersion checks whether the given values of one marker skip a version.
 func isSkipVersion(markerVals []interface{}) bool {
 	for _, val := range markerVals {
-- 
2.43.0


From 0d5241846eb0e407ec358c3dfdaa02ed5fa4806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 06/55] fix: list marker definitions and their help in a fixed
 order

---
 pkg/genall/help/types.go |  2 +-
 pkg/markers/reg.go       | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..f245b3c 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -196,7 +196,7 @@ func ByCategory(reg *markers.Registry, sorter SortGroup) []CategoryDoc {
 	res := make([]CategoryDoc, len(allGroups))
 	for i, groupName := range allGroups {
 		markers := groupedMarkers[groupName]
-		sort.Slice(markers, func(i, j int) bool {
+		sort.SliceStable(markers, func(i, j int) bool {
 			return sorter.Less(markers[i], markers[j])
 		})
 
diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 7dcd458..5cf7774 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -18,6 +18,7 @@ package markers
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 )
 
@@ -122,17 +123,24 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 	return r.helpFor[def]
 }
 
-// AllDefinitions returns all marker definitions known to this registry.
+// AllDefinitions returns all marker definitions known to this registry: those
+// describing packages first, then types, then fields, each sorted by name.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.init()
+
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	res := make([]*Definition, 0, len(r.forPkg)+len(r.forType)+len(r.forField))
-	for _, def := range r.forPkg {
-		res = append(res, def)
-	}
-	for _, def := range r.forType {
-		res = append(res, def)
-	}
-	for _, def := range r.forField {
-		res = append(res, def)
+	for _, defs := range []map[string]*Definition{r.forPkg, r.forType, r.forField} {
+		names := make([]string, 0, len(defs))
+		for name := range defs {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			res = append(res, defs[name])
+		}
 	}
 	return res
 }
-- 
2.43.0


From 0a6b5f8383fb8e8ec16af0d06968f9497dc60aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 07/55] fix: show the type of number and map arguments in help

---
 pkg/genall/help/types.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index f245b3c..20b8ee2 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -33,22 +33,25 @@ type DetailedHelp struct {
 
 // Argument is the type data for a marker argument.
 type Argument struct {
-	// Type is the data type of the argument (string, bool, int, slice, any, raw, invalid)
+	// Type is the data type of the argument (string, bool, int, number, slice, map, any, raw, invalid)
 	Type string `json:"type"`
 	// Optional marks this argument as optional.
 	Optional bool `json:"optional"`
-	// ItemType contains the type of the slice item, if this is a slice
+	// ItemType contains the type of the slice or map item, if this is a slice or map
 	ItemType *Argument `json:"itemType,omitempty"`
 }
 
 func (a Argument) typeString(out *strings.Builder) {
-	if a.Type == "slice" {
+	switch a.Type {
+	case "slice":
 		out.WriteString("[]")
 		a.ItemType.typeString(out)
-		return
+	case "map":
+		out.WriteString("map[string]")
+		a.ItemType.typeString(out)
+	default:
+		out.WriteString(a.Type)
 	}
-
-	out.WriteString(a.Type)
 }
 
 // TypeString returns a string roughly equivalent
@@ -120,6 +123,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 	switch argRaw.Type {
 	case markers.IntType:
 		res.Type = "int"
+	case markers.NumberType:
+		res.Type = "number"
 	case markers.StringType:
 		res.Type = "string"
 	case markers.BoolType:
@@ -128,6 +133,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 		res.Type = "any"
 	case markers.SliceType:
 		res.Type = "slice"
+	case markers.MapType:
+		res.Type = "map"
 	case markers.RawType:
 		res.Type = "raw"
 	case markers.InvalidType:
-- 
2.43.0


From a0f5558ff558baaf16887f4ecbf945a2a8404e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 08/55] fix: attach the help of webhookconfiguration to its own
 marker

---
 pkg/webhook/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..f9bfb81 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -436,7 +436,7 @@ func (Generator) RegisterMarkers(into *markers.Registry) error {
 		return err
 	}
 	into.AddHelp(ConfigDefinition, Config{}.Help())
-	into.AddHelp(WebhookConfigDefinition, Config{}.Help())
+	into.AddHelp(WebhookConfigDefinition, WebhookConfig{}.Help())
 	return nil
 }
 
-- 
2.43.0


From b59200ac093328be4b9333e86518fb02a78f01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 09/55] fix: report an empty option instead of panicking

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From e97cfab1c7c79d8347be16aa314faff1fb3398cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 10/55] fix: report output rules for generators that aren't run
 in a fixed order

---
 pkg/genall/options.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 080e9f9..445210e 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -18,6 +18,7 @@ package genall
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -162,13 +163,18 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	}
 
 	// actually associate the rules now that we know the generators
-	for genName, outputRule := range outputByGen {
+	genNames := make([]string, 0, len(outputByGen))
+	for genName := range outputByGen {
+		genNames = append(genNames, genName)
+	}
+	sort.Strings(genNames)
+	for _, genName := range genNames {
 		gen, knownGen := gensByName[genName]
 		if !knownGen {
 			return protoRuntime{}, fmt.Errorf("non-invoked generator %q", genName)
 		}
 
-		rules.ByGenerator[gen] = outputRule
+		rules.ByGenerator[gen] = outputByGen[genName]
 	}
 
 	return protoRuntime{
-- 
2.43.0


From dcd0bb4419f65adf108a2ee1e518b774842d70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 11/55] fix: report a malformed label in kubebuilder:metadata
 instead of panicking

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From bd532103ec428549f3bfb849e1ab9b21e94ffb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 12/55] fix: report integer marker arguments that don't fit
 their field

---
 pkg/markers/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..e34bbf6 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -551,7 +551,6 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 		if !expect(scanner, sc.Int, "integer") {
 			return
 		}
-		// TODO(directxman12): respect the size when parsing
 		text := scanner.TokenText()
 		if isNegative {
 			text = "-" + text
@@ -561,6 +560,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("integer %s is out of range", text))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From 4a41836a43dd28398fa6066064c657782289cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 13/55] fix: don't wrap webhook timeouts that don't fit 32 bits

---
 pkg/webhook/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index f9bfb81..efde7b9 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -382,7 +383,8 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
 func (c Config) timeoutSeconds() *int32 {
 	if c.TimeoutSeconds != 0 {
-		timeoutSeconds := int32(c.TimeoutSeconds)
+		// values that don't fit are out of range anyway, so keep them so
+		timeoutSeconds := int32(min(max(c.TimeoutSeconds, math.MinInt32), math.MaxInt32))
 		return &timeoutSeconds
 	}
 	return nil
-- 
2.43.0


From a9330aa48d4b1937442286049eddd347167f9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 14/55] fix: don't crash on types whose schema can't be found

---
 pkg/crd/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/crd/parser.go b/pkg/crd/parser.go
index 4b96ee9..ce78ca7 100644
--- a/pkg/crd/parser.go
+++ b/pkg/crd/parser.go
@@ -203,6 +203,11 @@ func (p *Parser) NeedFlattenedSchemaFor(typ TypeIdent) {
 
 	p.NeedSchemaFor(typ)
 	partialFlattened := p.flattener.FlattenType(typ)
+	if partialFlattened == nil {
+		// an error was already recorded on the package
+		p.FlattenedSchemata[typ] = apiext.JSONSchemaProps{}
+		return
+	}
 	fullyFlattened := FlattenEmbedded(partialFlattened, typ.Package)
 
 	p.FlattenedSchemata[typ] = *fullyFlattened
-- 
2.43.0


From 24eb4f1cf0c210d93b906b7e0659f210ef1ab0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 15/55] fix: report CRD versions without a name instead of
 panicking

---
 pkg/schemapatcher/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..de6912a 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -301,8 +301,11 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
-		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
+		nameNode, found, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !found || nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
 		name := nameNode.Value
-- 
2.43.0


From f51d583b236b313f55c1c75c99a0d52d590d3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 16/55] fix: do not modify cached schemata when patching

---
 pkg/schemapatcher/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index de6912a..cac28bb 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -130,8 +130,8 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
+			fullSchema = *fullSchema.DeepCopy() // don't mutate the cache
 			if g.MaxDescLen != nil {
-				fullSchema = *fullSchema.DeepCopy()
 				crdgen.TruncateDescription(&fullSchema, *g.MaxDescLen)
 			}
 
-- 
2.43.0


From f7019a31c1198eef75ca259f8d2b2e948ad8e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 17/55] fix: ignore packages without the type when patching,
 and order the others

---
 pkg/schemapatcher/gen.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index cac28bb..2aca40c 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"gopkg.in/yaml.v3"
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
@@ -118,6 +119,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			continue
 		}
 
+		var typeIdents []crdgen.TypeIdent
 		for pkg, gv := range parser.GroupVersions {
 			if gv.Group != groupKind.Group {
 				continue
@@ -125,8 +127,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			if _, wantedVersion := existingSet.Versions[gv.Version]; !wantedVersion {
 				continue
 			}
-
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if _, hasType := parser.Types[typeIdent]; !hasType {
+				continue
+			}
+			typeIdents = append(typeIdents, typeIdent)
+		}
+		// map iteration order must not decide which package wins
+		sort.Slice(typeIdents, func(i, j int) bool { return typeIdents[i].Package.ID < typeIdents[j].Package.ID })
+
+		for _, typeIdent := range typeIdents {
+			gv := parser.GroupVersions[typeIdent.Package]
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From f3f2e9495229e2886d463675c9fd18883f4b9032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 18/55] fix: report CRD manifests that cannot be interpreted

---
 pkg/schemapatcher/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 2aca40c..e03d1c6 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -385,7 +385,7 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 		// collect the group-kind and versions from the actual structured form
 		var actualCRD crdIsh
 		if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
-			continue
+			return nil, fmt.Errorf("load %q: %w", filepath.Join(dir, fileInfo.Name()), err)
 		}
 		groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
 		versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
@@ -396,7 +396,7 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 		// then actually unmarshal in a manner that preserves ordering, etc
 		var yamlNodeTree yaml.Node
 		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
-			continue
+			return nil, fmt.Errorf("load %q: %w", filepath.Join(dir, fileInfo.Name()), err)
 		}
 
 		// then store this CRDVersion of the CRD in a set, populating the set if necessary
-- 
2.43.0


From 00a711bb139aed7db4bfbfc8b9c50b3c0a25e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 19/55] fix: patch and write CRDs in a fixed order

---
 pkg/schemapatcher/gen.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index e03d1c6..b45c952 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -155,8 +155,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		}
 	}
 
+	// map iteration order must not decide the order of errors and output
+	sortedCRDSets := make([]*partialCRDSet, 0, len(partialCRDSets))
+	for _, set := range partialCRDSets {
+		sortedCRDSets = append(sortedCRDSets, set)
+	}
+	sort.Slice(sortedCRDSets, func(i, j int) bool {
+		return sortedCRDSets[i].GroupKind.String() < sortedCRDSets[j].GroupKind.String()
+	})
+
 	// patch existing CRDs with new schemata
-	for _, existingSet := range partialCRDSets {
+	for _, existingSet := range sortedCRDSets {
 		// first, figure out if we need to merge schemata together if they're *all*
 		// identical (meaning we also don't have any "unset" versions)
 
@@ -194,7 +203,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	for _, set := range partialCRDSets {
+	for _, set := range sortedCRDSets {
 		// We assume all CRD versions came from different files, since this
 		// is how controller-gen works.  If they came from the same file,
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
-- 
2.43.0


From 81ae119a456dce9d6bb0f9094c9744175adcf021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 20/55] fix: report package marker errors when generating apply
 configurations

---
 pkg/applyconfiguration/gen.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 73c727a..2573c2b 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -100,19 +100,18 @@ func enabledOnType(info *markers.TypeInfo) bool {
 	return isCRD(info)
 }
 
-func outputPkg(col *markers.Collector, pkg *loader.Package) string {
+func outputPkg(col *markers.Collector, pkg *loader.Package) (string, error) {
 	pkgMarkers, err := markers.PackageMarkers(col, pkg)
 	if err != nil {
-		// Use the default when there's an error.
-		return defaultOutputPackage
+		return "", err
 	}
 
 	pkgMarker := pkgMarkers.Get(outputPkgMarker.Name)
 	if pkgMarker != nil {
-		return pkgMarker.(string)
+		return pkgMarker.(string), nil
 	}
 
-	return defaultOutputPackage
+	return defaultOutputPackage, nil
 }
 
 func isCRD(info *markers.TypeInfo) bool {
@@ -169,7 +168,10 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, _ := enabledOnPackage(ctx.Collector, root)
+	enabled, err := enabledOnPackage(ctx.Collector, root)
+	if err != nil {
+		return err
+	}
 	if !enabled {
 		return nil
 	}
@@ -180,7 +182,10 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	arguments := args.New()
 	arguments.GoHeaderFile = ctx.HeaderFilePath
 
-	outpkg := outputPkg(ctx.Collector, root)
+	outpkg, err := outputPkg(ctx.Collector, root)
+	if err != nil {
+		return err
+	}
 
 	arguments.OutputDir = filepath.Join(root.Dir, outpkg)
 	arguments.OutputPkg = filepath.Join(root.Package.PkgPath, outpkg)
-- 
2.43.0


From 437eedf7fa54f058ea1638df32e0979fc8f1eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 21/55] fix: always remove the temporary header file

---
 pkg/applyconfiguration/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 2573c2b..d6811e3 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -127,12 +127,12 @@ func (d Generator) Generate(ctx *genall.GenerationContext) error {
 		if err != nil {
 			return fmt.Errorf("failed to create temporary file: %w", err)
 		}
+		defer os.Remove(tmpFile.Name())
+
 		if err := tmpFile.Close(); err != nil {
 			return fmt.Errorf("failed to close temporary file: %w", err)
 		}
 
-		defer os.Remove(tmpFile.Name())
-
 		headerFilePath = tmpFile.Name()
 	}
 
-- 
2.43.0


From a1cbc21384f8609eff03fee73977b4898f3948af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 22/55] fix: report failures to close written artifacts

---
 pkg/deepcopy/gen.go      | 6 +++++-
 pkg/genall/genall.go     | 8 ++++++--
 pkg/schemapatcher/gen.go | 8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index a85cc85..3fefe10 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -291,7 +291,11 @@ func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []by
 		root.AddError(err)
 		return
 	}
-	defer outputFile.Close()
+	defer func() {
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
+	}()
 	n, err := outputFile.Write(outBytes)
 	if err != nil {
 		root.AddError(err)
diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index b6f3740..b3f2729 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -141,12 +141,16 @@ func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
 // WriteYAML writes the given objects out, serialized as YAML, using the
 // context's OutputRule.  Objects are written as separate documents, separated
 // from each other by `---` (as per the YAML spec).
-func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) error {
+func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) (result error) {
 	out, err := g.Open(nil, itemPath)
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	defer func() {
+		if err := out.Close(); err != nil && result == nil {
+			result = err
+		}
+	}()
 
 	_, err = out.Write([]byte(headerText))
 	if err != nil {
diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index b45c952..be8bc79 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -209,12 +209,16 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
 		for _, crd := range set.CRDVersions {
-			if err := func() error {
+			if err := func() (result error) {
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
 				if err != nil {
 					return err
 				}
-				defer outWriter.Close()
+				defer func() {
+					if err := outWriter.Close(); err != nil && result == nil {
+						result = err
+					}
+				}()
 
 				enc := yaml.NewEncoder(outWriter)
 				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-- 
2.43.0


From d57fdf85396a4ababffde3da89f6d86831855c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 23/55] fix: don't panic in helpgen when the optional header is
 absent

---
 cmd/helpgen/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..c12ed69 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -155,9 +155,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		sort.Strings(typeNames)
 
 		outContent := new(bytes.Buffer)
-		if headerText == "" {
-			panic("at the disco!")
-		}
 		fmt.Fprintf(outContent, header, root.Name, headerText)
 
 		for _, typ := range typeNames {
-- 
2.43.0


From b53d589a53c7a73638287474335325b6ef8cec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 24/55] fix: close each helpgen output file right away and
 report failures

---
 cmd/helpgen/main.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index c12ed69..3a4876e 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -14,6 +14,7 @@ import (
 	"sigs.k8s.io/controller-tools/pkg/genall"
 	"sigs.k8s.io/controller-tools/pkg/genall/help"
 	prettyhelp "sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
+	"sigs.k8s.io/controller-tools/pkg/loader"
 	"sigs.k8s.io/controller-tools/pkg/markers"
 )
 
@@ -168,22 +169,31 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			outBytes = formatted
 		}
 
-		outputFile, err := ctx.Open(root, "zz_generated.markerhelp.go")
-		if err != nil {
-			root.AddError(err)
-			continue
-		}
-		defer outputFile.Close()
-		n, err := outputFile.Write(outBytes)
-		if err != nil {
+		writeOut(ctx, root, outBytes)
+	}
+	return nil
+}
+
+// writeOut writes the given code to the help file of the given package.
+func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []byte) {
+	outputFile, err := ctx.Open(root, "zz_generated.markerhelp.go")
+	if err != nil {
+		root.AddError(err)
+		return
+	}
+	defer func() {
+		if err := outputFile.Close(); err != nil {
 			root.AddError(err)
-			continue
-		}
-		if n < len(outBytes) {
-			root.AddError(io.ErrShortWrite)
 		}
+	}()
+	n, err := outputFile.Write(outBytes)
+	if err != nil {
+		root.AddError(err)
+		return
+	}
+	if n < len(outBytes) {
+		root.AddError(io.ErrShortWrite)
 	}
-	return nil
 }
 
 func (Generator) Help() *markers.DefinitionHelp {
-- 
2.43.0


From dd4e4c3d1c84b4db36cd28fff55316a5425ceeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 25/55] fix: record the parse errors of a package's files one
 after the other

---
 pkg/loader/loader.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..a448046 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -105,6 +105,7 @@ func (p *Package) NeedSyntax() {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,17 +113,19 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
+	// adding errors isn't threadsafe, and should happen in a fixed order
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+		}
+	}
 	for _, file := range out {
 		if file == nil {
 			return
-- 
2.43.0


From ea26194236b5e248778048d600b6baaa509b6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 26/55] fix: lock imported packages when checking whether they
 are ill-typed

---
 pkg/loader/loader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index a448046..a372e84 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -293,7 +293,11 @@ func (l *loader) typeCheck(pkg *Package) {
 	illTyped := len(errs) > 0
 	if !illTyped {
 		for _, importedPkg := range pkg.Imports() {
-			if importedPkg.IllTyped {
+			// as above, it might be in the process of being checked
+			importedPkg.Lock()
+			importIllTyped := importedPkg.IllTyped
+			importedPkg.Unlock()
+			if importIllTyped {
 				illTyped = true
 				break
 			}
-- 
2.43.0


From 5f9d280ef1a69d0b6c04a216e3506af8df2759d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 27/55] fix: report fields of unnamed and predeclared types
 instead of panicking

---
 pkg/crd/schema.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index c0b29a2..ff2381d 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -263,6 +263,17 @@ func TypeRefLink(pkgName, typeName string) string {
 	return defPrefix + qualifiedName(pkgName, typeName)
 }
 
+// declaredTypeName fetches the name of the given type, which must be declared in some package
+// (as opposed to being unnamed or predeclared, like any or error).
+func declaredTypeName(typ types.Type) (*types.TypeName, error) {
+	if named, isNamed := typ.(interface{ Obj() *types.TypeName }); isNamed {
+		if typeName := named.Obj(); typeName != nil && typeName.Pkg() != nil {
+			return typeName, nil
+		}
+	}
+	return nil, fmt.Errorf("unsupported type %v", typ)
+}
+
 // localNamedToSchema creates a schema (ref) for a *potentially* local type reference
 // (could be external from a dot-import).
 func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchemaProps {
@@ -302,7 +313,11 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	typeNameInfo, err := declaredTypeName(typeInfo)
+	if err != nil {
+		ctx.pkg.AddError(loader.ErrFromNode(err, ident))
+		return &apiext.JSONSchemaProps{}
+	}
 	pkg := typeNameInfo.Pkg()
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
@@ -322,8 +337,11 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
-	typeNameInfo := typeInfo.Obj()
+	typeNameInfo, err := declaredTypeName(typeInfoRaw)
+	if err != nil {
+		ctx.pkg.AddError(loader.ErrFromNode(err, named))
+		return &apiext.JSONSchemaProps{}
+	}
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
 	link := TypeRefLink(nonVendorPath, typeNameInfo.Name())
-- 
2.43.0


From 153545f3de3cb9f468188d7246899f30e769bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 28/55] fix: report anonymous struct fields instead of
 panicking

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index ff2381d..3a70c5d 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -428,7 +428,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From a42e4d73ef1e7811916f1d7cd352b20b7f500430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 29/55] fix: report types from packages that aren't imported
 directly

---
 pkg/crd/flatten.go | 6 +++++-
 pkg/crd/schema.go  | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..0d74113 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -323,9 +323,13 @@ func identFromRef(ref string, contextPkg *loader.Package) (TypeIdent, error) {
 	}
 
 	// an external reference
+	pkg := contextPkg.Imports()[pkgName]
+	if pkg == nil {
+		return TypeIdent{}, fmt.Errorf("reference %q to package %s, which isn't imported directly", ref, pkgName)
+	}
 	return TypeIdent{
 		Name:    typ,
-		Package: contextPkg.Imports()[pkgName],
+		Package: pkg,
 	}, nil
 }
 
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 3a70c5d..4c59997 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -103,6 +103,10 @@ func (c *schemaContext) requestSchema(pkgPath, typeName string) {
 	pkg := c.pkg
 	if pkgPath != "" {
 		pkg = c.pkg.Imports()[pkgPath]
+		if pkg == nil {
+			c.pkg.AddError(fmt.Errorf("type %s comes from package %s, which isn't imported directly", typeName, pkgPath))
+			return
+		}
 	}
 	c.schemaRequester.NeedSchemaFor(TypeIdent{
 		Package: pkg,
-- 
2.43.0


From c73d61581cf27a6956eaac36ae56e5a542052296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 30/55] fix: treat uint8 slices as byte slices

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 4c59997..f23c329 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -359,7 +359,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if eltType != nil && types.Identical(eltType, byteType) && array.Len == nil {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
-- 
2.43.0


From a97d83cc0830a4327a525ad0904c675bb3860635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 31/55] fix: accept map keys that are aliases of strings

---
 pkg/crd/schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index f23c329..1b7a2d5 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -389,6 +389,8 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 				return &apiext.JSONSchemaProps{}
 			}
 			keyInfo = nil // stop iterating
+		case *types.Alias:
+			keyInfo = types.Unalias(typedKey)
 		case *types.Named:
 			keyInfo = typedKey.Underlying()
 		default:
-- 
2.43.0


From c9df20d63b6365cf9e91fc6ddd204a83e87596e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 32/55] fix: don't crash when copying containers of predeclared
 types

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..1bae40f 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -198,8 +198,8 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
-		// local import
+	if otherPkg == nil || otherPkg == basePkg.Types {
+		// predeclared (like error) or local, no import needed
 		return typeName.Name()
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-- 
2.43.0


From df46434bfd11b2bf160b0a2c4391306da7a2faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 33/55] fix: list the imports of generated code in a fixed
 order

---
 pkg/deepcopy/traverse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 1bae40f..b034d25 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -22,6 +22,7 @@ import (
 	"go/types"
 	"io"
 	"path"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -152,6 +153,7 @@ func (l *importsList) ImportSpecs() []string {
 			res = append(res, fmt.Sprintf("%s %q", alias, importPath))
 		}
 	}
+	sort.Strings(res)
 	return res
 }
 
-- 
2.43.0


From 23439f87174b82cfd8ac0cd1daa82f5d5e7b9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 34/55] fix: don't crash on fields named like deepcopy methods

---
 pkg/deepcopy/traverse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b034d25..2f93e91 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -666,7 +666,8 @@ func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
 		// ignore embedded methods
 		return false, false
 	}
-	if deepCopyMethod == nil {
+	if _, isMethod := deepCopyMethod.(*types.Func); !isMethod {
+		// nothing there, or a field
 		return false, false
 	}
 
@@ -708,7 +709,8 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 		// ignore embedded methods
 		return false
 	}
-	if deepCopyMethod == nil {
+	if _, isMethod := deepCopyMethod.(*types.Func); !isMethod {
+		// nothing there, or a field
 		return false
 	}
 
-- 
2.43.0


From b7e00078614fa25c15d758499b3e18c3c9e4f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 35/55] fix: keep the verbs of RBAC rules that become equal by
 merging

---
 pkg/rbac/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..b1b0b85 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -258,6 +258,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			}
 
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// merging can yield a key that another Rule already has
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
@@ -277,6 +282,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// merging can yield a key that another Rule already has
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
@@ -296,6 +306,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// merging can yield a key that another Rule already has
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
-- 
2.43.0


From 212f7b212911e6606ca6c65e33776ead7e364e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 36/55] fix: don't modify the groups of collected markers

---
 pkg/rbac/parser.go    | 3 +++
 pkg/webhook/parser.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index b1b0b85..816e20d 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -24,6 +24,7 @@ package rbac
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strings"
 
@@ -227,6 +228,8 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 		// all the Rules having the same ruleKey will be merged into the first Rule
 		for _, rule := range rules {
 			// fix the group name first, since letting people type "core" is nice
+			// (on a copy, the groups belong to the marker)
+			rule.Groups = slices.Clone(rule.Groups)
 			for i, name := range rule.Groups {
 				if name == "core" {
 					rule.Groups[i] = ""
diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index efde7b9..f5ba005 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -25,6 +25,7 @@ package webhook
 import (
 	"fmt"
 	"math"
+	"slices"
 	"sort"
 	"strings"
 
@@ -269,7 +270,7 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 func (c Config) rules() []admissionregv1.RuleWithOperations {
 	whConfig := admissionregv1.RuleWithOperations{
 		Rule: admissionregv1.Rule{
-			APIGroups:   c.Groups,
+			APIGroups:   slices.Clone(c.Groups), // the groups belong to the marker
 			APIVersions: c.Versions,
 			Resources:   c.Resources,
 		},
-- 
2.43.0


From bebef80b3c17bf8c5e32970fc50fa8915f1b827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 37/55] fix: report missing marker arguments in a fixed order

---
 pkg/markers/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index e34bbf6..5dfb8c9 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -20,6 +20,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 	sc "text/scanner"
@@ -920,11 +921,16 @@ func (d *Definition) Parse(rawMarker string) (interface{}, error) {
 	}
 
 	if d.Strict {
+		var missing []string
 		for argName, arg := range d.Fields {
 			if _, wasSeen := seen[argName]; !wasSeen && !arg.Optional {
-				scanner.Error(scanner, fmt.Sprintf("missing argument %q", argName))
+				missing = append(missing, argName)
 			}
 		}
+		sort.Strings(missing)
+		for _, argName := range missing {
+			scanner.Error(scanner, fmt.Sprintf("missing argument %q", argName))
+		}
 	}
 
 	return out.Interface(), loader.MaybeErrList(errs)
-- 
2.43.0


From 71aee30bb1fd2cd490e2eb8a0ca9e920893fd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 38/55] fix: don't write CRDs all of whose versions are skipped

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..06d4c04 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, generated := parser.CustomResourceDefinitions[groupKind]
+		if !generated {
+			// no versions, so there's nothing to write
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From 1a59bb5a2148c3e5ec49e435320416d8445fe10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 39/55] fix: show the help of the webhookconfiguration marker

---
 pkg/webhook/parser.go                  | 3 ++-
 pkg/webhook/zz_generated.markerhelp.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index f5ba005..2a2d740 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -58,8 +58,9 @@ func supportedWebhookVersions() []string {
 	return []string{defaultWebhookVersion}
 }
 
-// +controllertools:marker:generateHelp
+// +controllertools:marker:generateHelp:category=Webhook
 
+// WebhookConfig specifies how a MutatingWebhookConfiguration or ValidatingWebhookConfiguration should be generated.
 type WebhookConfig struct {
 	// Mutating marks this as a mutating webhook (it's validating only if false)
 	//
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 53ce42f..5f8e59d 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -130,9 +130,9 @@ func (Generator) Help() *markers.DefinitionHelp {
 
 func (WebhookConfig) Help() *markers.DefinitionHelp {
 	return &markers.DefinitionHelp{
-		Category: "",
+		Category: "Webhook",
 		DetailedHelp: markers.DetailedHelp{
-			Summary: "",
+			Summary: "specifies how a MutatingWebhookConfiguration or ValidatingWebhookConfiguration should be generated.",
 			Details: "",
 		},
 		FieldHelp: map[string]markers.DetailedHelp{
-- 
2.43.0


From 22e66c970037ffa6874768d4e664d2b8791437a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 40/55] fix: deepcopy of a pointer to a named slice or map

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 2f93e91..78a5c77 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -547,10 +547,10 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
+			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, underlyingElem)
 		})
 		return
 	}
-- 
2.43.0


From 9ad37ee6ca8964465702d8e3a60717884fa574a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 41/55] fix: deepcopy of slices of pointers to types with copy
 methods

---
 pkg/deepcopy/traverse.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 78a5c77..f83bb8a 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -413,7 +413,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 
 	// check if we need to do anything special, or just copy each element appropriately
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case !isPointer(sliceType.Elem()) && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
@@ -524,7 +524,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	// if we have a manually written deepcopy, just use that
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if !isPointer(pointerType.Elem()) && (hasDeepCopyInto || hasDeepCopy) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
@@ -800,6 +800,13 @@ func passesByReference(typeInfo types.Type) bool {
 	}
 }
 
+// isPointer checks if the given type is an (unnamed) pointer, whose elements'
+// methods can be called on it, but don't take it.
+func isPointer(typeInfo types.Type) bool {
+	_, isPtr := types.Unalias(typeInfo).(*types.Pointer)
+	return isPtr
+}
+
 var (
 	// ptrDeepCopy is a DeepCopy for a type with an existing DeepCopyInto and a pointer receiver.
 	ptrDeepCopy = `
-- 
2.43.0


From 2152c4604317a5625e4778c248c2232832648fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 42/55] fix: report anonymous structs that deepcopy cannot copy

---
 pkg/deepcopy/traverse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index f83bb8a..b74c1fe 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -394,6 +394,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 			switch underlyingElem := underlyingElem.(type) {
 			case *types.Struct:
 				// structs will have deepcopy generated for them, so use that
+				c.checkNamedStruct(mapType.Elem())
 				c.Line("(*out)[key] = *val.DeepCopy()")
 			default:
 				c.pkg.AddError(fmt.Errorf("invalid map value type: %s", underlyingElem))
@@ -436,6 +437,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 			switch underlyingElem.(type) {
 			case *types.Struct:
 				// structs will always have deepcopy
+				c.checkNamedStruct(sliceType.Elem())
 				c.Linef("(*in)[i].DeepCopyInto(&(*out)[i])")
 			default:
 				c.pkg.AddError(fmt.Errorf("invalid slice element type: %s", underlyingElem))
@@ -507,6 +509,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			if fineToShallowCopy(field.Type()) {
 				c.Linef("out.%[1]s = in.%[1]s", field.Name())
 			} else {
+				c.checkNamedStruct(field.Type())
 				c.Linef("in.%[1]s.DeepCopyInto(&out.%[1]s)", field.Name())
 			}
 		default:
@@ -566,6 +569,14 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	}
 }
 
+// checkNamedStruct reports structs without a name, since those can't have the
+// methods that we'd call to copy them.
+func (c *copyMethodMaker) checkNamedStruct(typeInfo types.Type) {
+	if _, isUnnamed := types.Unalias(typeInfo).(*types.Struct); isUnnamed {
+		c.pkg.AddError(fmt.Errorf("invalid type: anonymous struct %s can't have copy methods", typeInfo))
+	}
+}
+
 // usePtrReceiver checks if we need a pointer receiver on methods for the given type
 // Pass-by-reference types don't get pointer receivers.
 func usePtrReceiver(typeInfo types.Type) bool {
-- 
2.43.0


From e883cf668bbabbdb769bc89c4530cd5cf4bc641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 43/55] fix: no deepcopy methods on named pointer types

---
 pkg/deepcopy/traverse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b74c1fe..0b49cc2 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -640,9 +640,9 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	if _, isNamed := typeInfo.(*types.Named); isNamed {
 		// according to gengo, everything named is an alias, except for an alias to a pointer,
 		// which is just a pointer, afaict.  Just roll with it.
-		if asPtr, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
-			lastType = asPtr
-			typeInfo = asPtr
+		// It can't have methods of its own.
+		if _, isPtr := typeInfo.Underlying().(*types.Pointer); isPtr {
+			return false
 		}
 
 		// if it has a manual deepcopy or deepcopyinto, we're fine
-- 
2.43.0


From 3646ab2bbece4cf2a29b8762b67f564626b78e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 44/55] fix: deepcopy of maps to aliases of basic types

---
 pkg/deepcopy/traverse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 0b49cc2..6655920 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -782,6 +782,8 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 	case *types.Named:
 		// aliases are fine to shallow-copy as long as they resolve to a shallow-copyable type
 		return fineToShallowCopy(typeInfo.Underlying())
+	case *types.Alias:
+		return fineToShallowCopy(types.Unalias(typeInfo))
 	case *types.Struct:
 		// structs are fine to shallow-copy if they have all shallow-copyable fields
 		for i := 0; i < typeInfo.NumFields(); i++ {
-- 
2.43.0


From 7013f25772f632ed670b3b4abb9a1a4af63e53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 45/55] fix: deepcopy of fields and map values that are aliases
 of pointers

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 6655920..cd90bcc 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -349,7 +349,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			fieldIsPtr := isPointer(mapType.Elem())                                // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -465,7 +465,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			fieldIsPtr := isPointer(field.Type())
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
-- 
2.43.0


From eb8622afcde29b9e77c987888a32c1ed262c72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 46/55] fix: deepcopy of slices of nil slices with copy methods

---
 pkg/deepcopy/traverse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index cd90bcc..29628d5 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -417,6 +417,13 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 	case !isPointer(sliceType.Elem()) && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
+			if passesByReference(underlyingElem) {
+				// DeepCopyInto needs something to copy
+				c.If("(*in)[i] != nil", func() {
+					c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
+				})
+				return
+			}
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
 		})
 	case fineToShallowCopy(underlyingElem):
-- 
2.43.0


From f8122363a4ea756195e3f3fc30ad4627dc0ac9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 47/55] fix: keep exclusive bounds with the bounds they apply
 to when merging

When both schemas set a maximum (or minimum), the bounds are hoisted into allOf, but whether they are exclusive stayed behind in the merged schema, where it no longer applied to either.
---
 pkg/crd/flatten.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 0d74113..fe9e9e9 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -65,6 +65,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 	dstRemainder := apiext.JSONSchemaProps{}
 	dstRemVal := reflect.Indirect(reflect.ValueOf(&dstRemainder))
 	hoisted := false
+	dstExclusiveMax, dstExclusiveMin := dst.ExclusiveMaximum, dst.ExclusiveMinimum
 
 	for i := 0; i < srcVal.NumField(); i++ {
 		fieldName := typ.Field(i).Name
@@ -161,6 +162,17 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 		}
 	}
 
+	// whether a bound is exclusive is only meaningful next to that bound, so keep
+	// it with each of the bounds that were hoisted
+	if srcRemainder.Maximum != nil {
+		dst.ExclusiveMaximum = false
+		dstRemainder.ExclusiveMaximum, srcRemainder.ExclusiveMaximum = dstExclusiveMax, src.ExclusiveMaximum
+	}
+	if srcRemainder.Minimum != nil {
+		dst.ExclusiveMinimum = false
+		dstRemainder.ExclusiveMinimum, srcRemainder.ExclusiveMinimum = dstExclusiveMin, src.ExclusiveMinimum
+	}
+
 	if hoisted {
 		dst.AllOf = append(dst.AllOf, dstRemainder, srcRemainder)
 	}
-- 
2.43.0


From 5e588fd7770b1aead78736d7443ac9379d4e22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 48/55] fix: walk schemas in a fixed order

Errors met while walking or merging the properties of a schema were recorded in map iteration order.
---
 pkg/crd/flatten.go        |  3 ++-
 pkg/crd/schema_visitor.go | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index fe9e9e9..0ef57cf 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -108,7 +108,8 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 			srcMap := srcInt.(map[string]apiext.JSONSchemaProps)
 			dstMap := dstInt.(map[string]apiext.JSONSchemaProps)
 
-			for k, v := range srcMap {
+			for _, k := range sortedKeys(srcMap) {
+				v := srcMap[k]
 				dstProp, exists := dstMap[k]
 				if !exists {
 					dstMap[k] = v
diff --git a/pkg/crd/schema_visitor.go b/pkg/crd/schema_visitor.go
index 2604d73..a3290fa 100644
--- a/pkg/crd/schema_visitor.go
+++ b/pkg/crd/schema_visitor.go
@@ -17,6 +17,8 @@ limitations under the License.
 package crd
 
 import (
+	"sort"
+
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
 
@@ -93,7 +95,8 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 		subWalker.walkPtr(schema.AdditionalProperties.Schema)
 	}
 	subWalker.walkMap(schema.PatternProperties)
-	for name, dep := range schema.Dependencies {
+	for _, name := range sortedKeys(schema.Dependencies) {
+		dep := schema.Dependencies[name]
 		subWalker.walkPtr(dep.Schema)
 		schema.Dependencies[name] = dep
 	}
@@ -103,9 +106,22 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 	subWalker.walkMap(schema.Definitions)
 }
 
+// sortedKeys returns the keys of the given map in order, so that what is
+// recorded while walking over it (errors, for instance) doesn't depend on the
+// map's iteration order.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // walkMap walks over values of the given map, saving changes to them.
 func (w schemaWalker) walkMap(defs map[string]apiext.JSONSchemaProps) {
-	for name, def := range defs {
+	for _, name := range sortedKeys(defs) {
+		def := defs[name]
 		// this is iter var reference is because we immediately preseve it below
 		//nolint:gosec
 		w.walkSchema(&def)
-- 
2.43.0


From 954c20ec91ab5cda540d20fb543d889f0f743a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 49/55] fix: report marker errors in source order across files

The files of a package are parsed in parallel, so that their order in the file set depends on scheduling.
---
 pkg/markers/collect.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index afad5f7..8c63918 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -85,7 +86,7 @@ func (c *Collector) MarkersInPackage(pkg *loader.Package) (map[ast.Node]MarkerVa
 
 	pkg.NeedSyntax()
 	nodeMarkersRaw := c.associatePkgMarkers(pkg)
-	markers, err := c.parseMarkersInPackage(nodeMarkersRaw)
+	markers, err := c.parseMarkersInPackage(pkg.Syntax, nodeMarkersRaw)
 	if err != nil {
 		return nil, err
 	}
@@ -97,15 +98,26 @@ func (c *Collector) MarkersInPackage(pkg *loader.Package) (map[ast.Node]MarkerVa
 }
 
 // parseMarkersInPackage parses the given raw marker comments into output values using the registry.
-func (c *Collector) parseMarkersInPackage(nodeMarkersRaw map[ast.Node][]markerComment) (map[ast.Node]MarkerValues, error) {
+func (c *Collector) parseMarkersInPackage(files []*ast.File, nodeMarkersRaw map[ast.Node][]markerComment) (map[ast.Node]MarkerValues, error) {
 	var errors []error
 	nodeMarkerValues := make(map[ast.Node]MarkerValues)
 	nodes := make([]ast.Node, 0, len(nodeMarkersRaw))
 	for node := range nodeMarkersRaw {
 		nodes = append(nodes, node)
 	}
-	// report errors in source order
-	sort.Slice(nodes, func(i, j int) bool { return nodes[i].Pos() < nodes[j].Pos() })
+	// report errors in source order (files are parsed in parallel, so their
+	// positions in the file set are in no particular order)
+	fileIndex := func(node ast.Node) int {
+		return slices.IndexFunc(files, func(file *ast.File) bool {
+			return file.FileStart <= node.Pos() && node.Pos() <= file.FileEnd
+		})
+	}
+	sort.Slice(nodes, func(i, j int) bool {
+		if fileI, fileJ := fileIndex(nodes[i]), fileIndex(nodes[j]); fileI != fileJ {
+			return fileI < fileJ
+		}
+		return nodes[i].Pos() < nodes[j].Pos()
+	})
 	for _, node := range nodes {
 		markersRaw := nodeMarkersRaw[node]
 		var target TargetType
-- 
2.43.0


From d735a266bef27d10bd1d0c1e1fffc94135d67853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 50/55] fix: share one lock between all uses of a type checker

---
 pkg/loader/refs.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index f58a29f..30fa69c 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -207,12 +207,7 @@ type TypeChecker struct {
 // that pass through (have true returned by) any of the NodeFilters.
 func (c *TypeChecker) Check(root *Package) {
 	c.init()
-
-	// use a sub-checker with the appropriate settings
-	(&TypeChecker{
-		NodeFilters:     c.NodeFilters,
-		checkedPackages: c.checkedPackages,
-	}).check(root)
+	c.check(root)
 }
 
 func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
@@ -231,6 +226,8 @@ func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
 }
 
 func (c *TypeChecker) init() {
+	c.Lock()
+	defer c.Unlock()
 	if c.checkedPackages == nil {
 		c.checkedPackages = make(map[*Package]struct{})
 	}
-- 
2.43.0


From 6e63ad39ed23484bf63d5826a9c674dba17bd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 51/55] fix: copy types that contain themselves through their
 methods

---
 pkg/deepcopy/traverse.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 29628d5..82ad6c4 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -22,6 +22,7 @@ import (
 	"go/types"
 	"io"
 	"path"
+	"slices"
 	"sort"
 	"strings"
 	"unicode"
@@ -214,6 +215,9 @@ type copyMethodMaker struct {
 	pkg *loader.Package
 	*importsList
 	*codeWriter
+
+	// copying holds the named types whose copying code is being written, outermost first.
+	copying []*types.Named
 }
 
 // GenerateMethodsFor makes DeepCopy, DeepCopyInto, and DeepCopyObject methods
@@ -288,6 +292,21 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 	// a given type (i.e. the type that results from following all aliases)
 	last := eventualUnderlyingType(typeInfo)
 
+	// named types that contain themselves can't be copied in place all the way down,
+	// so leave the inner ones to their methods (pointers can't have those).
+	if named, isNamed := types.Unalias(typeInfo).(*types.Named); isNamed {
+		if slices.ContainsFunc(c.copying, func(outer *types.Named) bool { return types.Identical(outer, named) }) {
+			if _, isPtr := last.(*types.Pointer); isPtr {
+				c.pkg.AddError(fmt.Errorf("invalid type: pointer %s points to itself", typeInfo))
+				return
+			}
+			c.Line("*out = (*in).DeepCopy()")
+			return
+		}
+		c.copying = append(c.copying, named)
+		defer func() { c.copying = c.copying[:len(c.copying)-1] }()
+	}
+
 	// we might hit a type that has a manual deepcopy method written on non-root types
 	// (this case is handled for root types in GenerateMethodFor).
 	// In that case (when we're not dealing with a pointer, since those need special handling
@@ -560,7 +579,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, underlyingElem)
+			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, pointerType.Elem())
 		})
 		return
 	}
-- 
2.43.0


From 10c3b52ba2101154b287fbaa390a450255827929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:42 +0000
Subject: [PATCH 52/55] fix: call copy methods through named pointer types

---
 pkg/deepcopy/traverse.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 82ad6c4..5f66b31 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -547,9 +547,15 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 // genPointerDeepCopy generates DeepCopy code for the given named type whose
 // underlying type is the given struct.
-func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.Pointer) {
+func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType *types.Pointer) {
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
+	// named pointer types don't have the methods of what they point to
+	elem := "(*in)"
+	if _, isNamed := types.Unalias(actualName.typeInfo).(*types.Named); isNamed {
+		elem = "(**in)"
+	}
+
 	// if we have a manually written deepcopy, just use that
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
@@ -559,9 +565,9 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 			outNeedsPtr = copyOnPtr
 		}
 		if outNeedsPtr {
-			c.Line("*out = (*in).DeepCopy()")
+			c.Linef("*out = %s.DeepCopy()", elem)
 		} else {
-			c.Line("x := (*in).DeepCopy()")
+			c.Linef("x := %s.DeepCopy()", elem)
 			c.Line("*out = &x")
 		}
 		return
@@ -588,7 +594,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
-		c.Line("(*in).DeepCopyInto(*out)")
+		c.Linef("%s.DeepCopyInto(*out)", elem)
 	default:
 		c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
 		return
-- 
2.43.0


From c145bd578074210bbd572d796430eb91e14e3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 53/55] fix: keep the documents that follow a patched CRD in
 its manifest

---
 pkg/schemapatcher/gen.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index be8bc79..c95a925 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,7 +17,10 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"sort"
@@ -225,7 +228,12 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 				// so be compatible with everything else in k8s and choose 2.
 				enc.SetIndent(2)
 
-				return enc.Encode(crd.Yaml)
+				for _, doc := range append([]*yaml.Node{crd.Yaml}, crd.OtherDocs...) {
+					if err := enc.Encode(doc); err != nil {
+						return err
+					}
+				}
+				return nil
 			}(); err != nil {
 				return err
 			}
@@ -258,6 +266,9 @@ type partialCRDSet struct {
 type partialCRD struct {
 	// Yaml is the raw YAML structure of the CRD.
 	Yaml *yaml.Node
+	// OtherDocs are the documents that follow the CRD in its file, which are
+	// written back unchanged.
+	OtherDocs []*yaml.Node
 	// FileName is the source name of the file that this was read from.
 	//
 	// This isn't on partialCRDSet because we could have different CRD versions
@@ -408,9 +419,22 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 
 		// then actually unmarshal in a manner that preserves ordering, etc
 		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
+		dec := yaml.NewDecoder(bytes.NewReader(rawContent))
+		if err := dec.Decode(&yamlNodeTree); err != nil {
 			return nil, fmt.Errorf("load %q: %w", filepath.Join(dir, fileInfo.Name()), err)
 		}
+		var otherDocs []*yaml.Node
+		for {
+			doc := &yaml.Node{}
+			err := dec.Decode(doc)
+			if errors.Is(err, io.EOF) {
+				break
+			}
+			if err != nil {
+				return nil, fmt.Errorf("load %q: %w", filepath.Join(dir, fileInfo.Name()), err)
+			}
+			otherDocs = append(otherDocs, doc)
+		}
 
 		// then store this CRDVersion of the CRD in a set, populating the set if necessary
 		if res[groupKind] == nil {
@@ -425,6 +449,7 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 		}
 		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
 			Yaml:       &yamlNodeTree,
+			OtherDocs:  otherDocs,
 			FileName:   fileInfo.Name(),
 			CRDVersion: typeMeta.APIVersion,
 		})
-- 
2.43.0


From a238f0e6dd4b8bcddcbf277d93c4a92b4b160917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:34 +0000
Subject: [PATCH 54/55] fix: keep the end of an unquoted marker string that is
 followed by spaces

---
 pkg/markers/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 5dfb8c9..714d702 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -403,11 +403,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
 	startPos := scanner.Position.Offset
+	// peeking skips whitespace, and forgets the text of the token before it
+	endPos := startPos + len(scanner.TokenText())
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
 		// skip this token
 		scanner.Scan()
+		endPos = scanner.Position.Offset + len(scanner.TokenText())
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From 1fde03aa0202d17c39b2de8f2e3f872439c6a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:08 +0000
Subject: [PATCH 55/55] fix: truncate descriptions between characters

The limit counted bytes, so that a description could be cut inside a
character, or after the first byte of a sentence end that has several.
---
 pkg/crd/desc_visitor.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..069e0c3 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -60,15 +61,18 @@ func (v descVisitor) Visit(schema *apiext.JSONSchemaProps) SchemaVisitor {
 // exceeds maxLen because it tries to chop off the desc at the closest sentence
 // boundary to avoid incomplete sentences.
 func truncateString(desc string, maxLen int) string {
-	if len(desc) <= maxLen {
+	// count characters, not bytes, so that none is split
+	chars := []rune(desc)
+	if len(chars) <= maxLen {
 		return desc
 	}
 
-	desc = desc[0:maxLen]
+	desc = string(chars[:maxLen])
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
@@ -76,7 +80,7 @@ func truncateString(desc string, maxLen int) string {
 		return desc[0:n] + "..."
 	}
 
-	return desc[0:maxLen] + "..."
+	return desc + "..."
 }
 
 // helper function to determine if given rune is a sentence terminal or not.
-- 
2.43.0

