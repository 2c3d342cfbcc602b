From 9dc25bb1b518f40cff1e62aba7941b1150db16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 01/37] fix: allow file references only inside the allowed
 paths

The allowed path test was inverted: a path was treated as allowed as soon as
it was not a direct child of the first allowed path.
---
 fetchers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetchers.go b/fetchers.go
index 2d47ae3..afbd2f1 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -208,12 +208,12 @@ func (f *fileSystemDocumentFetcher) isOutsideOfCwd(path string) (bool, error) {
 
 func isOutsideOfAllowedPaths(path string, allowedPaths []string) (bool, error) {
 	for _, allowedPath := range allowedPaths {
-		matched, err := filepath.Match(filepath.Join(allowedPath, "*"), path)
+		diff, err := filepath.Rel(allowedPath, path)
 		if err != nil {
-			return false, fmt.Errorf("failed to match path '%s' against allowed path '%s': %w", path, allowedPath, err)
+			return false, fmt.Errorf("failed to compare path '%s' with allowed path '%s': %w", path, allowedPath, err)
 		}
 
-		if !matched {
+		if diff != ".." && !strings.HasPrefix(diff, ".."+string(filepath.Separator)) {
 			return false, nil
 		}
 	}
-- 
2.43.0


From 5c84e62611f3d5dbdca972a653e9da6ac207fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 02/37] fix: apply the HTTP fetch policy to redirects

An allowed host could redirect a fetch to any other host or down to http.
---
 fetchers.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/fetchers.go b/fetchers.go
index afbd2f1..f1cbf09 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -31,6 +31,9 @@ type (
 	}
 )
 
+// Maximum number of redirects to follow when fetching a document
+const maximumRedirects = 10
+
 func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInterface, error) {
 	allowedHosts := []string{}
 
@@ -87,8 +90,26 @@ func (f *httpDocumentFetcher) resolveDocumentId(relativeTo string, ref string) (
 	return resolvedUrl.String(), nil
 }
 
+// Applies the fetch policy to every redirect a server answers with
+func (f *httpDocumentFetcher) checkRedirect(req *http.Request, via []*http.Request) error {
+	if len(via) >= maximumRedirects {
+		return fmt.Errorf("stopped after %d redirects", maximumRedirects)
+	}
+
+	if !f.allowInsecure && req.URL.Scheme != "https" {
+		return fmt.Errorf("redirect to insecure URL '%s' not allowed", req.URL)
+	}
+
+	if len(f.allowedHosts) > 0 && !funk.Contains(f.allowedHosts, req.URL.Host) {
+		return fmt.Errorf("redirect to host '%s' not allowed to be fetched from allowed hosts %s", req.URL.Host, strings.Join(f.allowedHosts, ", "))
+	}
+
+	return nil
+}
+
 func (f *httpDocumentFetcher) fetchDocument(resolvedPath string) (*schemaNode, error) {
-	resp, err := http.Get(resolvedPath)
+	client := &http.Client{CheckRedirect: f.checkRedirect}
+	resp, err := client.Get(resolvedPath)
 	if err != nil {
 		return nil, fmt.Errorf("failed to fetch URL '%s': %w", resolvedPath, err)
 	}
-- 
2.43.0


From f0c238f8e6d17fad0e427696198cdcc0b07fd26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 03/37] fix: use the pattern property regex options that were
 passed

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 41744f9..b88cab3 100644
--- a/parse.go
+++ b/parse.go
@@ -434,7 +434,7 @@ func withDefaultParseOptions(opts ParserOptions) ParserOptions {
 	}
 
 	parseOpts.RegexStringOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
-	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexStringOptions, defaultRegexOpts)
+	parseOpts.RegexPatternPropertyOptions = util.GetPtr(parseOpts.RegexPatternPropertyOptions, defaultRegexOpts)
 
 	return parseOpts
 }
-- 
2.43.0


From 27c28e9f7f638121aef5ecc5aca4a54bed1d29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 04/37] fix: do not modify the parser options of the caller in
 ParseSchemaFile

---
 parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index b88cab3..5fce667 100644
--- a/parse.go
+++ b/parse.go
@@ -212,11 +212,12 @@ func ParseSchemaFile(path string, opts *ParserOptions) (RootGenerator, error) {
 	}
 
 	// Resolve relative path base for fetching external documents unless already set
-	if opts.RelativeTo == "" {
-		opts.RelativeTo = "file://" + path
+	fileOpts := *opts
+	if fileOpts.RelativeTo == "" {
+		fileOpts.RelativeTo = "file://" + path
 	}
 
-	return ParseSchema(data, opts)
+	return ParseSchema(data, &fileOpts)
 }
 
 // Parses a Json Schema file at the given path with default options. If there is an error reading the file or
-- 
2.43.0


From 5cf320eeea77d975a887675f4bce38a7f7b455b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 05/37] fix: honour the fetch flags of the CLI for schemas read
 from stdin

---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index a59bc6c..c654ecb 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -74,7 +74,7 @@ func main() {
 		checkErr(err)
 	} else if hasStdin() {
 		stdin := readStdin()
-		generator, err = chaff.ParseSchemaWithDefaults(stdin)
+		generator, err = chaff.ParseSchema(stdin, parserOptions)
 		checkErr(err)
 	} else {
 		checkErr(fmt.Errorf("no schema specified! (On Stdin or through the --file flag)"))
-- 
2.43.0


From 58f2b3b7512309d99a45d71a893673983cbc3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 06/37] fix: keep HTTP resolution off in the CLI without
 --allowed-hosts

The flag documents that resolution fails without allowed hosts, but passing
--allow-insecure alone enabled it for every host.
---
 cli/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cli.go b/cli/cli.go
index c654ecb..932e88e 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -122,7 +122,7 @@ func main() {
 }
 
 func getHttpDocumentFetcherOptionsFromFlags(allowedHosts *string, allowInsecure *bool) chaff.HTTPFetchOptions {
-	if (allowedHosts != nil && *allowedHosts == "") && (allowInsecure == nil || !*allowInsecure) {
+	if allowedHosts == nil || *allowedHosts == "" {
 		return chaff.HTTPFetchOptions{}
 	}
 
-- 
2.43.0


From 504a8518690c1c6c48734a2612845cc532d3407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 07/37] fix: accept allowed hosts given as URLs

The error test was inverted, so the host was never taken from the URL.
---
 fetchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fetchers.go b/fetchers.go
index f1cbf09..649c510 100644
--- a/fetchers.go
+++ b/fetchers.go
@@ -44,7 +44,7 @@ func NewHttpDocumentFetcher(parserConfig HTTPFetchOptions) (documentFetcherInter
 	for _, host := range parserConfig.AllowedHosts {
 		parsedUrl, err := url.Parse(host)
 
-		if parsedUrl != nil && err != nil {
+		if err == nil && parsedUrl.Host != "" {
 			allowedHosts = append(allowedHosts, parsedUrl.Host)
 		} else {
 			allowedHosts = append(allowedHosts, host)
-- 
2.43.0


From ce917d35c2288984cced36211c338b7cb201fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 08/37] fix: check array indexes of reference paths against the
 array length

In range indexes were rejected and out of range ones caused a panic.
---
 reference_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference_path.go b/reference_path.go
index 7c4a2bc..35949ea 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -129,7 +129,7 @@ func resolveReferenceSlice(nodes *[]schemaNode, path string, resolvedPath string
 		return nil, fmt.Errorf("[%s] Invalid array index (Must be a number) %s", resolvedPath, part)
 	}
 
-	if len(*nodes) > partInt || partInt < 0 {
+	if partInt >= len(*nodes) || partInt < 0 {
 		return nil, fmt.Errorf("[%s] Array index out of bounds %d", resolvedPath, partInt)
 	}
 
-- 
2.43.0


From 5467fda8158ece504d633e38d0ef824b712ef31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 09/37] fix: report references to absent keywords instead of
 panicking

---
 reference_path.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/reference_path.go b/reference_path.go
index 35949ea..220e3c6 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -36,14 +36,14 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 	case "patternProperties":
 		return resolveReferenceProperty(node.PatternProperties, path, resolvedPath)
 	case "additionalProperties":
-		if node.AdditionalProperties.IsFalse {
-			return nil, fmt.Errorf("[%s] No schema node for additional properties", resolvedPath)
-		}
-
-		return resolveSubReferencePath(node.AdditionalProperties.Schema, path, resolvedPath)
+		return resolveFalseOrSchema(node.AdditionalProperties, path, resolvedPath)
 
 	// Array
 	case "items":
+		if node.Items == nil {
+			return nil, fmt.Errorf("[%s] No items defined", resolvedPath)
+		}
+
 		part, _ := getReferencePathToken(path)
 		match, err := regexp.MatchString(`^\d+$`, part)
 		if !match || err != nil {
@@ -93,6 +93,10 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 }
 
 func resolveFalseOrSchema(node *schemaNodeOrFalse, path string, resolvedPath string) (*schemaNode, error) {
+	if node == nil {
+		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
+	}
+
 	if node.IsFalse {
 		return nil, fmt.Errorf("[%s] No schema node for %s node is false", resolvedPath, path)
 	}
-- 
2.43.0


From 6895f5942ddd1ba99f3593b56eaad02e0d1e02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 10/37] fix: resolve reference paths that end in a keyword

A path such as '#/not' or '#/items' resolved to the schema that contains the
keyword instead of the schema of the keyword.
---
 reference_path.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reference_path.go b/reference_path.go
index 220e3c6..5065933 100644
--- a/reference_path.go
+++ b/reference_path.go
@@ -22,13 +22,13 @@ func resolveSubReferencePath(node *schemaNode, refPath string, resolvedPath stri
 		return nil, fmt.Errorf("[%s] No schema node found", resolvedPath)
 	}
 
-	pathPart, path := getReferencePathToken(refPath)
-	resolvedPath = resolvedPath + "/" + pathPart
-
-	if path == "" {
+	if refPath == "" {
 		return node, nil
 	}
 
+	pathPart, path := getReferencePathToken(refPath)
+	resolvedPath = resolvedPath + "/" + pathPart
+
 	switch pathPart {
 	// Object
 	case "properties":
-- 
2.43.0


From f8668979a3e0c4d8f3c26075011298c3f931b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 11/37] fix: do not panic on references the document regex does
 not match

---
 internal/util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/util/util.go b/internal/util/util.go
index 5eb7fee..c05fb10 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -297,6 +297,10 @@ func UnmarshalJsonStringToMap(data string) interface{} {
 func RegexMatchNamedCaptureGroups(r *regexp.Regexp, str string) map[string]string {
 	matches := r.FindStringSubmatch(str)
 	results := map[string]string{}
+	if matches == nil {
+		return results
+	}
+
 	for i, name := range r.SubexpNames() {
 		if i != 0 && name != "" {
 			results[name] = matches[i]
-- 
2.43.0


From e24c6b7e642ec7e096834febd3da08d079b3b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 12/37] fix: record conflicting not/uniqueItems instead of
 panicking

---
 not.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/not.go b/not.go
index 441274f..c806cf4 100644
--- a/not.go
+++ b/not.go
@@ -502,7 +502,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 		warnField(metadata, "not/uniqueItems", fmt.Errorf("cannot have 'not/uniqueItems' set to true. It is very difficult to calculate items that match all clauses and are identical throughout the array"))
 	}
 
-	newNode.UniqueItems = resolveBool("not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
+	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
@@ -1096,13 +1096,13 @@ func computeValidMultipleOfValues(metadata *parserMetadata, min float64, max flo
 	return validValues, nil
 }
 
-func resolveBool(fieldName string, value *bool, notValue *bool) *bool {
+func resolveBool(metadata *parserMetadata, fieldName string, value *bool, notValue *bool) *bool {
 	if value == nil && notValue == nil {
 		return nil
 	}
 
 	if value != nil && notValue != nil && *value == *notValue {
-		warnField(nil, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
+		warnField(metadata, fieldName, fmt.Errorf("cannot have boolean value and its negation set to the same value"))
 		return value
 	}
 
-- 
2.43.0


From 99186964603e743bb39c089eb474cf09d485101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 13/37] fix: report an empty type array instead of panicking on
 generation

---
 multiple_type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multiple_type.go b/multiple_type.go
index 4a7864a..eb85e32 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -19,7 +19,11 @@ type (
 //	{
 //	  "type": ["string", "number"]
 //	}
-func parseMultipleType(node schemaNode, metadata *parserMetadata) (multipleTypeGenerator, error) {
+func parseMultipleType(node schemaNode, metadata *parserMetadata) (Generator, error) {
+	if len(node.Type.MultipleTypes) == 0 {
+		return nullGenerator{}, fmt.Errorf("type must not be an empty array")
+	}
+
 	generators := []Generator{}
 	for _, nodeType := range node.Type.MultipleTypes {
 		generator, err := parseType(nodeType, node, metadata)
-- 
2.43.0


From 25d22d183b426ab23c4324a1f85b57a43c3d48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 14/37] fix: record errors of the types in a type array

---
 multiple_type.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multiple_type.go b/multiple_type.go
index eb85e32..15bcc36 100644
--- a/multiple_type.go
+++ b/multiple_type.go
@@ -28,6 +28,7 @@ func parseMultipleType(node schemaNode, metadata *parserMetadata) (Generator, er
 	for _, nodeType := range node.Type.MultipleTypes {
 		generator, err := parseType(nodeType, node, metadata)
 		if err != nil {
+			metadata.Errors.AddErrorWithSubpath(fmt.Sprintf("/type/%s", nodeType), err)
 			generators = append(generators, nullGenerator{})
 		} else {
 			generators = append(generators, generator)
-- 
2.43.0


From 3529b5bae34007f767b4e834c14c0f740d7a9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 15/37] fix: report unknown types

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 5fce667..e8cbb73 100644
--- a/parse.go
+++ b/parse.go
@@ -415,7 +415,7 @@ func parseType(nodeType string, node schemaNode, metadata *parserMetadata) (Gene
 	case typeNull:
 		return parseNull(node)
 	default:
-		return nullGenerator{}, nil
+		return nullGenerator{}, fmt.Errorf("unknown type '%s'", nodeType)
 	}
 }
 
-- 
2.43.0


From af1c99f49943cfb3d131df096a7b94f3827bab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 16/37] fix: shuffle with the seeded source of randomness

funk.Shuffle draws from the global source, so a seed did not determine the
optional properties of generated objects.
---
 rand/random.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rand/random.go b/rand/random.go
index f4f2692..47620e5 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -3,8 +3,6 @@ package rand
 import (
 	"math/rand"
 	"time"
-
-	"github.com/thoas/go-funk"
 )
 
 type RandUtil struct {
@@ -45,14 +43,21 @@ func (sr *RandUtil) StringChoice(stringSlice *[]string) string {
 
 func (sr *RandUtil) StringChoiceMultiple(stringSlice *[]string, numChoices int) []string {
 	// Pick NumChoices random choices from the string slice without duplicates
-	choices := funk.Shuffle(*stringSlice).([]string)
+	choices := append([]string{}, *stringSlice...)
+	sr.Rand.Shuffle(len(choices), func(i, j int) {
+		choices[i], choices[j] = choices[j], choices[i]
+	})
 
 	return choices[:numChoices]
 }
 
-// @todo - Reimplement to use std rand source
 func (sr *RandUtil) Shuffle(in []interface{}) []interface{} {
-	return funk.Shuffle(in).([]interface{})
+	shuffled := append([]interface{}{}, in...)
+	sr.Rand.Shuffle(len(shuffled), func(i, j int) {
+		shuffled[i], shuffled[j] = shuffled[j], shuffled[i]
+	})
+
+	return shuffled
 }
 
 // Int functions
-- 
2.43.0


From 61cf1f87739b50761d290d04547779c517cd14a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 17/37] fix: choose object keys independently of the map
 iteration order

Collecting the keys also no longer writes behind the end of the shared slice
of required properties, which raced between concurrent generations.
---
 internal/util/util.go | 14 ++++++++------
 object.go             |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index c05fb10..2e1752d 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -5,9 +5,9 @@ import (
 	"fmt"
 	"math"
 	"regexp"
+	"sort"
 	"strings"
 
-	"github.com/thoas/go-funk"
 	"golang.org/x/exp/constraints"
 )
 
@@ -227,13 +227,15 @@ func GetZeroIfNil[T any](f *T, zeroValue T) T {
 }
 
 func ImplodeMapStrings[V any](mapKeys map[string]V) string {
-	keys, ok := funk.Keys(mapKeys).([]string)
-	if !ok {
-		return ""
-	}
+	return strings.Join(SortedMapKeys(mapKeys), ",")
+}
 
-	return strings.Join(keys, ",")
+// SortedMapKeys returns the keys of a map in a stable order
+func SortedMapKeys[V any](mapKeys map[string]V) []string {
+	keys := MapKeysToStringSlice(&mapKeys)
+	sort.Strings(keys)
 
+	return keys
 }
 
 func GetIndexOrDefault[T any](nodes []T, index int, defaultItem T) T {
diff --git a/object.go b/object.go
index 635f96b..73cc2cb 100644
--- a/object.go
+++ b/object.go
@@ -180,7 +180,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(g.Required, funk.Keys(g.Properties).([]string)...))
+	optionalKeys := funk.UniqString(append(append([]string{}, g.Required...), util.SortedMapKeys(g.Properties)...))
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
@@ -262,7 +262,7 @@ func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string
 		return "", nil
 	}
 
-	availableRegexes := funk.Keys(g.PatternProperties).([]string)
+	availableRegexes := util.SortedMapKeys(g.PatternProperties)
 	targetRegex := opts.Rand.StringChoice(&availableRegexes)
 	targetRegexGenerator := g.PatternPropertiesRegex[targetRegex]
 	targetGenerator := g.PatternProperties[targetRegex]
-- 
2.43.0


From b400a88e8f7d941ef7af3cb6dc59000eb25bc85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 18/37] fix: identify the root document of schemas without a
 base path consistently

---
 document.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index e17130a..8b340e0 100644
--- a/document.go
+++ b/document.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"net/url"
 	"os"
-	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -85,14 +84,14 @@ func newDocumentResolver(opts ParserOptions, rootDocument *schemaNode) (*documen
 			opts.RelativeTo = "file://" + cwd + "/"
 		}
 
-		resolvedRootDocumentId = filepath.Join(opts.RelativeTo, rootDocumentId)
+		resolvedRootDocumentId = opts.RelativeTo + rootDocumentId
 	} else {
 		resolvedRootDocumentId = opts.RelativeTo
 	}
 
 	resolver := &documentResolver{
 		// Setup the root document
-		documentCurrentlyBeingParsedId: opts.RelativeTo,
+		documentCurrentlyBeingParsedId: resolvedRootDocumentId,
 		parsedExternalDocuments: map[string]bool{
 			resolvedRootDocumentId: true,
 		},
-- 
2.43.0


From 9c76c03e637714edd6347171b814fee576f68138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 19/37] fix: record merge errors of combination sub-schemas

---
 combination.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/combination.go b/combination.go
index 5f18c12..0db56fb 100644
--- a/combination.go
+++ b/combination.go
@@ -46,7 +46,12 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 	generators := []Generator{}
 
 	for i, subSchema := range target {
-		baseNode, _ := mergeSchemaNodes(metadata, node)
+		refPath := fmt.Sprintf("/%s/%d", nodeType, i)
+		baseNode, err := mergeSchemaNodes(metadata, node)
+		if err != nil {
+			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to merge the schema around %s: %w", nodeType, err))
+		}
+
 		// Stop infinite recursion during merge
 		if nodeType == "oneOf" {
 			baseNode.OneOf = nil
@@ -58,11 +63,11 @@ func parseCombination(node schemaNode, metadata *parserMetadata) (Generator, err
 
 		mergedNode, err := mergeSchemaNodes(metadata, baseNode, subSchema)
 		if err != nil {
+			metadata.Errors.AddErrorWithSubpath(refPath, fmt.Errorf("failed to merge %s sub-schema: %w", nodeType, err))
 			generators = append(generators, nullGenerator{})
 			continue
 		}
 
-		refPath := fmt.Sprintf("/%s/%d", nodeType, i)
 		generator, err := ref.ParseNodeInScope(refPath, mergedNode, metadata, subSchema)
 
 		if err != nil {
-- 
2.43.0


From 863bac4f48b16ab8a3aa949756c9a7e699c86a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 20/37] fix: record an exceeded parse depth

---
 parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index e8cbb73..53e8837 100644
--- a/parse.go
+++ b/parse.go
@@ -297,7 +297,9 @@ func parseNode(node schemaNode, metadata *parserMetadata) (Generator, error) {
 
 	maxDepth := metadata.ParserOptions.MaxParseDepth
 	if metadata.ParseDepth > maxDepth {
-		return nullGenerator{}, fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		err := fmt.Errorf("maximum parse depth (%d) exceeded, possible circular schema reference", maxDepth)
+		metadata.Errors.AddError(err)
+		return nullGenerator{}, err
 	}
 
 	refHandler := metadata.ReferenceHandler
-- 
2.43.0


From d2dd80e91cc19ace03c5b4121ff76fea773bf0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 21/37] fix: validate every sub schema against its own
 constraints

---
 schema.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9f7ac42..8e01b82 100644
--- a/schema.go
+++ b/schema.go
@@ -14,6 +14,9 @@ type (
 	schemaManager struct {
 		rootSchemaCompiler *jsonschemaV6.Compiler
 		documentResolver   *documentResolver
+
+		// Number of sub schemas added so far, used to tell apart fragments with the same normalised path
+		addedSchemas int
 	}
 
 	internalOnlyLoader struct {
@@ -49,7 +52,13 @@ func (sm *schemaManager) ParseSchemaNode(parserMetadata *parserMetadata, node sc
 	deepClonedNode := util.UnmarshalJsonStringToMap(util.MarshalJsonToString(node))
 	referenceUpdatedNode := sm.replaceRefs(deepClonedNode)
 
-	sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode)
+	sm.addedSchemas++
+	currentPath = fmt.Sprintf("%s_%d", currentPath, sm.addedSchemas)
+
+	if err := sm.rootSchemaCompiler.AddResource(sm.documentResolver.GetCurrentScope()+currentPath, referenceUpdatedNode); err != nil {
+		return nil, err
+	}
+
 	return sm.CompilePath(currentPath)
 }
 
-- 
2.43.0


From f0baa5db325bcb9f875f9b8cade03417ce3623dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 22/37] fix: keep the enum, multipleOf, additionalItems and
 allOf of schemas next to a not

---
 not.go | 75 +++++++++++++++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/not.go b/not.go
index c806cf4..259b448 100644
--- a/not.go
+++ b/not.go
@@ -186,6 +186,7 @@ func notMerge(metadata *parserMetadata, node schemaNode, notNode schemaNode) (sc
 			newNode.mergedNot = append(newNode.mergedNot, node.Not)
 		}
 	}
+	newNode.AllOf = node.AllOf
 	newNode.OneOf = node.OneOf
 	newNode.AnyOf = node.AnyOf
 	newNode.Ref = node.Ref
@@ -292,6 +293,8 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 
 	newNode.Minimum = min
 	newNode.Maximum = max
+	newNode.MultipleOf = node.MultipleOf
+	newNode.Enum = node.Enum
 
 	// Handle multipleOf
 	multipleOf := util.GetZeroIfNil(node.MultipleOf, 0)
@@ -324,7 +327,26 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 	} else if notMultipleOf != 0 {
 		// We handle getting valid values of `not/multipleOf` by precomputing valid values and baking them into an enum
 		// in order to create a valid range of values that can be generated.
-		validValues := []float64{}
+
+		// Filter down existing enum to valid values if it exists
+		if node.Enum != nil && len(*node.Enum) > 0 {
+			filteredEnum := []interface{}{}
+
+			for _, enumValue := range *node.Enum {
+				if enumFloatValue, ok := enumValue.(float64); ok && math.Mod(enumFloatValue, notMultipleOf) != 0 {
+					filteredEnum = append(filteredEnum, enumValue)
+				}
+			}
+
+			if len(filteredEnum) == 0 {
+				warnField(metadata, "not/multipleOf", fmt.Errorf("Unable to find any valid enum values given the multipleOf and not/multipleOf constraints"))
+				return nil
+			}
+
+			newNode.Enum = &filteredEnum
+			return nil
+		}
+
 		if multipleOf == 0 {
 			multipleOf = infinitesimal
 		}
@@ -333,49 +355,31 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 		max := util.GetZeroIfNil(max, upperBound)
 
 		validValues, err := computeValidMultipleOfValues(metadata, min, max, multipleOf, notMultipleOf)
-		if err != nil && alturnateMin != nil || alturnateMax != nil {
+		if err != nil && (alturnateMin != nil || alturnateMax != nil) {
 			alturnateMinVal := util.GetZeroIfNil(alturnateMin, lowerBound)
 			alturnateMaxVal := util.GetZeroIfNil(alturnateMax, upperBound)
 
 			validValues, err = computeValidMultipleOfValues(metadata, alturnateMinVal, alturnateMaxVal, multipleOf, notMultipleOf)
+		}
 
-			// In the event both upper bound computations fail, we warn and exit given there is not
-			// more we can reasonably do to find valid values
-			if err != nil {
-				warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
-				return nil
-			}
+		// In the event both upper bound computations fail, we warn and exit given there is not
+		// more we can reasonably do to find valid values (Excluding the integer type is already handled along with the types)
+		if err != nil && notNode.MultipleOf == nil {
+			return nil
+		} else if err != nil {
+			warnField(metadata, "not/multipleOf", fmt.Errorf("unable to compute valid multipleOf values given the multipleOf and not/multipleOf constraints: %w", err))
+			return nil
 		}
 
 		newNode.MultipleOf = nil
 		newNode.Maximum = nil
 		newNode.Minimum = nil
 
-		// Filter down existing enum to valid values if it exists
-		if newNode.Enum != nil && len(*newNode.Enum) > 0 {
-			filteredEnum := []interface{}{}
-
-			for _, enumValue := range *newNode.Enum {
-				if enumFloatValue, ok := enumValue.(float64); ok {
-					if funk.ContainsFloat64(validValues, enumFloatValue) {
-						filteredEnum = append(filteredEnum, enumValue)
-					}
-				}
-			}
-
-			if len(filteredEnum) == 0 {
-				warnField(metadata, "not/multipleOf", fmt.Errorf("Unable to find any valid enum values given the multipleOf and not/multipleOf constraints"))
-			}
-			newNode.Enum = &filteredEnum
-		} else {
-			interfaceValues := make([]interface{}, len(validValues))
-			for i, v := range validValues {
-				interfaceValues[i] = v
-			}
-			newNode.Enum = &interfaceValues
+		interfaceValues := make([]interface{}, len(validValues))
+		for i, v := range validValues {
+			interfaceValues[i] = v
 		}
-	} else {
-		newNode.MultipleOf = node.MultipleOf
+		newNode.Enum = &interfaceValues
 	}
 
 	return nil
@@ -388,11 +392,11 @@ func notApplyNumberAndInteger(metadata *parserMetadata, newNode *schemaNode, con
 }
 
 func notApplyEnum(metadata *parserMetadata, newNode *schemaNode, constraintCollection *constraintCollection, node schemaNode, notNode schemaNode) error {
-	if node.Enum == nil && notNode.Enum == nil {
+	if notNode.Enum == nil {
 		return nil
 	}
 
-	enum := util.GetZeroIfNil(node.Enum, []interface{}{})
+	enum := util.GetZeroIfNil(newNode.Enum, []interface{}{})
 	notEnum := util.GetZeroIfNil(notNode.Enum, []interface{}{})
 	if len(enum) == 0 && len(notEnum) != 0 {
 		notEnumJsonData := []string{}
@@ -413,7 +417,7 @@ func notApplyEnum(metadata *parserMetadata, newNode *schemaNode, constraintColle
 		}
 	}
 
-	enumJsonData := util.SafeMarshalListToJsonList(node.Enum)
+	enumJsonData := util.SafeMarshalListToJsonList(newNode.Enum)
 	notEnumJsonData := util.SafeMarshalListToJsonList(notNode.Enum)
 
 	differentValues, _ := funk.DifferenceString(enumJsonData, notEnumJsonData)
@@ -504,6 +508,7 @@ func notApplyArray(metadata *parserMetadata, newNode *schemaNode, constraintColl
 
 	newNode.UniqueItems = resolveBool(metadata, "not/uniqueItems", node.UniqueItems, notNode.UniqueItems)
 
+	newNode.AdditionalItems = node.AdditionalItems
 	newNode.PrefixItems = notMergePrefixNodes(metadata, node.PrefixItems, notNode.PrefixItems, util.GetZeroIfNil(newNode.Items, itemsData{}))
 	newNode.UnevaluatedItems = notMergeSchemaNodeOrFalse("/not/unevaluatedItems", metadata, node.UnevaluatedItems, notNode.UnevaluatedItems)
 	newNode.Contains = notMergeSubNodePtr("/not/contains", metadata, node.Contains, notNode.Contains)
-- 
2.43.0


From c30ba19394d58a282dfa752031fec45a9e89581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 23/37] fix: do not modify the constraints of merged schemas

---
 merge.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index c71727d..378cf1b 100644
--- a/merge.go
+++ b/merge.go
@@ -70,11 +70,11 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		// .constraints on sub-nodes). Accumulate them so that sequential merges
 		// don't lose earlier exclusions.
 		if node.constraints != nil {
-			if mergedNode.constraints == nil {
-				mergedNode.constraints = node.constraints
-			} else {
-				mergedNode.constraints.Merge(node.constraints)
-			}
+			// Merge into a new collection given the collections of the merged nodes may be shared with other nodes
+			mergedConstraints := newConstraintCollection()
+			mergedConstraints.Merge(mergedNode.constraints)
+			mergedConstraints.Merge(node.constraints)
+			mergedNode.constraints = &mergedConstraints
 		}
 
 		// If the node had a circular $ref that couldn't be inlined during merge,
-- 
2.43.0


From ac7415e8d3786ca2b56a88b3432da725b1c48aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 24/37] fix: keep types, items set to false and dependent
 keywords when merging allOf

---
 internal/util/util.go | 15 +++++++++++++
 json.go               |  9 ++++++++
 merge.go              | 49 ++++++++++++++++++++++++++++++++++---------
 3 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 2e1752d..da1ea14 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,6 +94,21 @@ func MergeSlicePtrs[T any](slices ...*[]T) *[]T {
 	return &result
 }
 
+func MergeMaps[T any](maps ...map[string]T) map[string]T {
+	var result map[string]T
+
+	for _, m := range maps {
+		for key, value := range m {
+			if result == nil {
+				result = make(map[string]T)
+			}
+			result[key] = value
+		}
+	}
+
+	return result
+}
+
 func Round(x, unit float64) float64 {
 	r := math.Round(x/unit) * unit
 	// Snap to the number of decimal places implied by `unit` to eliminate
diff --git a/json.go b/json.go
index fe5b301..32db695 100644
--- a/json.go
+++ b/json.go
@@ -36,6 +36,15 @@ func newMultipleTypeFromSlice(types []string) multipleType {
 	return multipleType
 }
 
+// Types returns every type that is allowed
+func (m multipleType) Types() []string {
+	if m.SingleType != "" {
+		return []string{m.SingleType}
+	}
+
+	return m.MultipleTypes
+}
+
 func (m *multipleType) UnmarshalJSON(data []byte) error {
 	if len(data) == 0 {
 		return nil
diff --git a/merge.go b/merge.go
index 378cf1b..bd7b82e 100644
--- a/merge.go
+++ b/merge.go
@@ -38,7 +38,7 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		}
 
 		// Merge Type
-		mergedNode.Type = mergeSchemaTypes(mergedNode.Type, node.Type)
+		mergedNode.Type = mergeSchemaTypes(metadata, mergedNode.Type, node.Type)
 
 		mergedNode = mergeEnumAndConst(metadata, mergedNode, node)
 
@@ -54,6 +54,10 @@ func mergeSchemaNodes(metadata *parserMetadata, nodes ...schemaNode) (schemaNode
 		mergedNode.UnevaluatedItems = mergeNodeOrFalse(metadata, mergedNode.UnevaluatedItems, node.UnevaluatedItems, "unevaluatedItems")
 		mergedNode.Contains = mergeSchemaPtrs(metadata, "contains", mergedNode.Contains, node.Contains)
 
+		// Merge unsupported keywords so they get reported
+		mergedNode.DependentRequired = util.MergeMaps(mergedNode.DependentRequired, node.DependentRequired)
+		mergedNode.DependentSchemas = util.MergeMaps(mergedNode.DependentSchemas, node.DependentSchemas)
+
 		// Merge combinators
 		mergedNode.OneOf = util.MergeSlicePtrs(mergedNode.OneOf, node.OneOf)
 		mergedNode.AnyOf = util.MergeSlicePtrs(mergedNode.AnyOf, node.AnyOf)
@@ -427,27 +431,52 @@ func mergeResolveReference(metadata *parserMetadata, node schemaNode) (schemaNod
 	return newNode, nil
 }
 
-func mergeSchemaTypes(mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
+func mergeSchemaTypes(metadata *parserMetadata, mergedSchemaType *multipleType, nodeType *multipleType) *multipleType {
 	if nodeType == nil {
 		return mergedSchemaType
 	}
 
-	mergedType := util.GetZeroIfNil(mergedSchemaType, multipleType{})
+	if mergedSchemaType == nil {
+		return nodeType
+	}
+
+	left, right := mergedSchemaType.Types(), nodeType.Types()
+	if len(left) == 0 {
+		return nodeType
+	} else if len(right) == 0 {
+		return mergedSchemaType
+	}
 
-	if nodeType.SingleType != "" {
-		mergedType.SingleType = nodeType.SingleType
-		mergedType.MultipleTypes = nil
-	} else if len(nodeType.MultipleTypes) > 0 {
-		mergedType.MultipleTypes = nodeType.MultipleTypes
-		mergedType.SingleType = ""
+	mergedTypes := intersectTypes(left, right)
+	if len(mergedTypes) == 0 {
+		warnConfigMergeError(metadata, "type", fmt.Errorf("type intersection is empty left: %v, right: %v", left, right))
+		return nodeType
 	}
 
+	mergedType := newMultipleTypeFromSlice(mergedTypes)
 	return &mergedType
 }
 
+// intersectTypes computes the types allowed by both of the given sets of types
+// taking into account that every integer is a number as well
+func intersectTypes(left []string, right []string) []string {
+	types := []string{}
+	for _, candidate := range typeAll {
+		inLeft := funk.ContainsString(left, candidate) || (candidate == typeInteger && funk.ContainsString(left, typeNumber))
+		inRight := funk.ContainsString(right, candidate) || (candidate == typeInteger && funk.ContainsString(right, typeNumber))
+
+		// Integers are already covered if any number is allowed
+		if inLeft && inRight && !(candidate == typeInteger && funk.ContainsString(types, typeNumber)) {
+			types = append(types, candidate)
+		}
+	}
+
+	return types
+}
+
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
-	if nodeData == nil || nodeData.Node == nil {
+	if nodeData == nil || (nodeData.Node == nil && !nodeData.DisallowAdditionalItems) {
 		return mergedData
 	}
 
-- 
2.43.0


From e758846c01a07e17832c673e7a3a58988e0ae460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 25/37] fix: do not panic on patterns matching everything but
 newlines or null bytes

---
 internal/regen/char_class.go         | 9 +++++++--
 internal/regen/internal_generator.go | 2 +-
 internal/regen/regen.go              | 5 ++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/regen/char_class.go b/internal/regen/char_class.go
index 8f3d843..ba11323 100644
--- a/internal/regen/char_class.go
+++ b/internal/regen/char_class.go
@@ -57,7 +57,7 @@ e.g.
 func parseCharClass(runes []rune) *tCharClass {
 	var totalSize int32
 	numRanges := len(runes) / 2
-	ranges := make([]tCharClassRange, numRanges, numRanges)
+	ranges := make([]tCharClassRange, 0, numRanges)
 
 	for i := 0; i < numRanges; i++ {
 		
@@ -69,11 +69,16 @@ func parseCharClass(runes []rune) *tCharClass {
 			// doesn't make sense to generate null bytes, so all ranges must start at
 			// no less than 1.
 			start = 1
+
+			// The range only contained the null byte
+			if end < start {
+				continue
+			}
 		}
 
 		r := newCharClassRange(start, end)
 
-		ranges[i] = r
+		ranges = append(ranges, r)
 		totalSize += r.Size
 	}
 
diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index 8bcf5ad..aca2aa9 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -133,7 +133,7 @@ func opAnyCharNotNl(regexp *syntax.Regexp, args *GeneratorArgs) (*internalGenera
 	if args.LimitToAscii {
 		charClass = newCharClass(32, 93) // Limit to printable ASCII characters.
 	} else {
-		charClass = newCharClass(0, rune(math.MaxInt32))
+		charClass = newCharClass(1, rune(math.MaxInt32))
 	}
 	return createCharClassGenerator(regexp.String(), charClass, args)
 }
diff --git a/internal/regen/regen.go b/internal/regen/regen.go
index 0afa8f5..482ea64 100644
--- a/internal/regen/regen.go
+++ b/internal/regen/regen.go
@@ -98,7 +98,6 @@ the results of running the benchmarks with minimal load are:
 package regen
 
 import (
-	"fmt"
 	"math/rand"
 	"regexp/syntax"
 )
@@ -166,8 +165,8 @@ func (a *GeneratorArgs) initialize() error {
 	}
 
 	if a.MinUnboundedRepeatCount > a.MaxUnboundedRepeatCount {
-		panic(fmt.Sprintf("MinUnboundedRepeatCount(%d) > MaxUnboundedRepeatCount(%d)",
-			a.MinUnboundedRepeatCount, a.MaxUnboundedRepeatCount))
+		return generatorError(nil, "MinUnboundedRepeatCount(%d) > MaxUnboundedRepeatCount(%d)",
+			a.MinUnboundedRepeatCount, a.MaxUnboundedRepeatCount)
 	}
 
 	if a.CaptureGroupHandler == nil {
-- 
2.43.0


From e3bf88ffd4e066ff6d3a90d820f5d44aa2fdafa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 26/37] fix: do not panic on very large ranges and reject only
 ranges without integers

---
 number.go      | 12 +++++++-----
 rand/random.go |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/number.go b/number.go
index 374dda9..fce1afb 100644
--- a/number.go
+++ b/number.go
@@ -110,8 +110,8 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 
 	// If we are an integer type, round min and max to the nearest integers
 	if mustBeAnInteger {
-		// If min and max are both non-integer values and round to the same integer
-		if math.Floor(min) == math.Floor(max) {
+		// If there is no integer between min and max
+		if math.Ceil(min) > math.Floor(max) {
 			return 0, 0, fmt.Errorf("minimum and maximum do not allow for any integers (min: %f, max: %f)", min, max)
 		}
 
@@ -145,11 +145,13 @@ func resolveMinMaxForNode(node schemaNode, mustBeAnInteger bool) (float64, float
 }
 
 func countMultiplesInRange(min float64, max float64, multiple float64) int {
-	if min == 0 {
-		return int(math.Floor(max / multiple))
+	count := math.Floor(max / multiple)
+	if min != 0 {
+		count -= math.Floor(min / multiple)
 	}
 
-	return int(math.Floor(max/multiple)) - int(math.Floor(min/multiple))
+	// Avoid overflowing integers for very large ranges
+	return int(math.Min(count, math.MaxInt32))
 }
 
 func generateMultipleOf(rand rand.RandUtil, min float64, max float64, multiple float64) float64 {
diff --git a/rand/random.go b/rand/random.go
index 47620e5..f007e8d 100644
--- a/rand/random.go
+++ b/rand/random.go
@@ -62,8 +62,8 @@ func (sr *RandUtil) Shuffle(in []interface{}) []interface{} {
 
 // Int functions
 func (sr *RandUtil) RandomInt(min int, max int) int {
-	// In the the case that min == max, return min
-	if min == max {
+	// In the the case that there is nothing to choose from, return min
+	if max <= min {
 		return min
 	}
 
-- 
2.43.0


From f83dbfe274d327c8935d9418b8041b9e3c66f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 27/37] fix: register tuple items given as items under their
 own path

---
 array.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index 9cc53a2..814cc01 100644
--- a/array.go
+++ b/array.go
@@ -139,23 +139,23 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 func parseTupleGeneratorFromSchemaNode(node schemaNode, metadata *parserMetadata) ([]Generator, error) {
 
 	if node.PrefixItems != nil && len(*node.PrefixItems) != 0 {
-		return parseTupleGenerator(*node.PrefixItems, metadata)
+		return parseTupleGenerator("/prefixItems", *node.PrefixItems, metadata)
 		// Legacy support given "items" when passed as an array
 		// has the same meaning as "prefixItems"
 	} else if node.Items != nil && node.Items.Nodes != nil && len(*node.Items.Nodes) != 0 {
-		return parseTupleGenerator(*node.Items.Nodes, metadata)
+		return parseTupleGenerator("/items", *node.Items.Nodes, metadata)
 	}
 	return nil, nil
 }
 
-func parseTupleGenerator(nodes []schemaNode, metadata *parserMetadata) ([]Generator, error) {
+func parseTupleGenerator(scope string, nodes []schemaNode, metadata *parserMetadata) ([]Generator, error) {
 	if len(nodes) == 0 {
 		return nil, nil
 	}
 
 	generators := []Generator{}
 	for i, item := range nodes {
-		refPath := fmt.Sprintf("/prefixItems/%d", i)
+		refPath := fmt.Sprintf("%s/%d", scope, i)
 		generator, err := metadata.ReferenceHandler.ParseNodeInScope(refPath, item, metadata)
 		if err != nil {
 			err = fmt.Errorf("error parsing tuple generator: %w", err)
-- 
2.43.0


From 011d613f4779fe0a71e39ab3dc4d114b8f55be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 28/37] fix: keep schemas set to true when validating sub
 schemas

---
 json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 32db695..243eb68 100644
--- a/json.go
+++ b/json.go
@@ -148,7 +148,7 @@ func (s *schemaNodeOrFalse) MarshalJSON() ([]byte, error) {
 		return json.Marshal(s.Schema)
 	}
 
-	return []byte("null"), nil
+	return []byte("true"), nil
 }
 
 // Standard json.Unmarshal treats {"const": null} and an absent "const" key
-- 
2.43.0


From 22642f38f6cd348e35a35eea70abe4308cd63a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 29/37] fix: count unwound nots towards the parse depth

---
 not.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/not.go b/not.go
index 259b448..9a312e5 100644
--- a/not.go
+++ b/not.go
@@ -71,8 +71,9 @@ func parseNot(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	}
 
 	if len(notNodes) == 0 {
-		// No single-not nodes remain — parse normally
-		return parseSchemaNode(node, metadata)
+		// No single-not nodes remain — parse normally. The merged nodes might contain further (even recursive)
+		// nots so this has to count towards the parse depth
+		return parseNode(node, metadata)
 	}
 
 	// Flatten the existing structure
-- 
2.43.0


From 0abd24afbeb5b2132b26efdc58f26170acfb6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 30/37] fix: keep every error recorded at the same location

---
 error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/error.go b/error.go
index 6dbec19..eca04c3 100644
--- a/error.go
+++ b/error.go
@@ -1,7 +1,10 @@
 package chaff
 
 import (
+	"errors"
 	"fmt"
+	"slices"
+	"strings"
 )
 
 type (
@@ -30,6 +33,15 @@ func (ec *errorCollection) AddErrorWithSubpath(subPath string, err error) {
 		ec.Errors[document] = make(map[string]error)
 	}
 
+	// Keep any other error that was already recorded at the same location
+	if existing, exists := ec.Errors[document][path+subPath]; exists && !errors.Is(err, existing) {
+		if slices.Contains(strings.Split(existing.Error(), "\n"), err.Error()) {
+			return
+		}
+
+		err = errors.Join(existing, err)
+	}
+
 	ec.Errors[document][path+subPath] = err
 }
 
-- 
2.43.0


From e17ff6261f9d24673c7d7697a8c99ad31c07784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 31/37] fix: report character classes without any characters
 instead of panicking while generating

---
 internal/regen/internal_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/regen/internal_generator.go b/internal/regen/internal_generator.go
index aca2aa9..d05ac1c 100644
--- a/internal/regen/internal_generator.go
+++ b/internal/regen/internal_generator.go
@@ -242,6 +242,10 @@ func enforceSingleSub(regexp *syntax.Regexp) error {
 }
 
 func createCharClassGenerator(name string, charClass *tCharClass, args *GeneratorArgs) (*internalGenerator, error) {
+	if charClass.TotalSize < 1 {
+		return nil, generatorError(nil, "character class /%s/ has no characters to generate", name)
+	}
+
 	return &internalGenerator{name, func() string {
 		i := args.rng.Int31n(charClass.TotalSize)
 		if charClass.TotalSize > 100000 {
-- 
2.43.0


From 4d204ce5beaa02f9683b4b68aada932e59fecc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 32/37] fix: keep items given as an array when a schema is read
 and written

Decoding into a pointer allocates it even when the data has the other form, so array items were read as an empty item schema as well: they were written back as {}, and additional items were generated from that empty schema.
---
 json.go  | 9 +++++++--
 not.go   | 1 +
 parse.go | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index 243eb68..19972c6 100644
--- a/json.go
+++ b/json.go
@@ -95,8 +95,13 @@ func (i *itemsData) UnmarshalJSON(data []byte) error {
 		return nodeErr
 	}
 
-	i.Nodes = nodes
-	i.Node = node
+	// Decoding into a pointer allocates it even if the data is of the other form
+	if nodeErr == nil {
+		i.Node = node
+	} else {
+		i.Nodes = nodes
+	}
+
 	return nil
 }
 
diff --git a/not.go b/not.go
index 9a312e5..5a2699b 100644
--- a/not.go
+++ b/not.go
@@ -707,6 +707,7 @@ func notMergeItemData(metadata *parserMetadata, nodePtr *itemsData, notNodePtr *
 
 	if node.Nodes != nil || notNode.Nodes != nil {
 		warnField(metadata, "not/items [As Array]", fmt.Errorf("not merging 'items' as an array is not yet supported. Please use the more recent 'prefixItems' functionality instead if possible"))
+		return nodePtr
 	}
 
 	if node.Node == nil && notNode.Node == nil {
diff --git a/parse.go b/parse.go
index 53e8837..e210b2e 100644
--- a/parse.go
+++ b/parse.go
@@ -478,7 +478,7 @@ func inferType(node schemaNode) string {
 	}
 
 	// Array Properties
-	hasArrayProps := (node.Items != nil && node.Items.Node != nil) ||
+	hasArrayProps := (node.Items != nil && (node.Items.Node != nil || node.Items.Nodes != nil)) ||
 		node.MinItems != nil ||
 		node.MaxItems != nil ||
 		node.Contains != nil ||
-- 
2.43.0


From 017752673cc9a5de837221c40a4194340d64ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 33/37] fix: keep items given as an array when only one merged
 schema has items

---
 merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merge.go b/merge.go
index bd7b82e..a6ee044 100644
--- a/merge.go
+++ b/merge.go
@@ -476,6 +476,10 @@ func intersectTypes(left []string, right []string) []string {
 
 // Merges items data (Legacy support for "items" merging not supported)
 func mergeItemsData(parserMetadata *parserMetadata, mergedData *itemsData, nodeData *itemsData) *itemsData {
+	if mergedData == nil {
+		return nodeData
+	}
+
 	if nodeData == nil || (nodeData.Node == nil && !nodeData.DisallowAdditionalItems) {
 		return mergedData
 	}
-- 
2.43.0


From 1395a65d5271405e03f0a607bd03fc7f8c1f9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:08 +0000
Subject: [PATCH 34/37] fix: additionalItems: false limits an array to its
 tuple

The tuple given by items as an array was not counted, contains items were appended in spite of additionalItems: false, and without a tuple additionalItems: false dropped minItems.
---
 array.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/array.go b/array.go
index 814cc01..4ddfb0c 100644
--- a/array.go
+++ b/array.go
@@ -63,12 +63,17 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		return nullGenerator{}, err
 	}
 
-	if err := assertLowerUpperBound(len(prefixItems)+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
+	// Items given as an array are a tuple as well
+	tupleLength := len(prefixItems)
+	if tupleLength == 0 && node.Items != nil {
+		tupleLength = len(util.GetZeroIfNil(node.Items.Nodes, []schemaNode{}))
+	}
+
+	if err := assertLowerUpperBound(tupleLength+minContains, maxItems, "Tuple items Plus Prefix items. (Note contains does not assume tuple items count towards the total account)", "minItems"); err != nil {
 		return nullGenerator{}, err
 	}
 
 	// Validate if tuple makes sense in this context
-	tupleLength := len(prefixItems)
 	if tupleLength > maxItems && node.MaxItems != nil {
 		return nullGenerator{}, fmt.Errorf("tuple length must be less than or equal to maxItems (tupleLength: %d, maxItems: %d)", tupleLength, node.MaxItems)
 	}
@@ -76,7 +81,9 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 	min := util.GetInt(minItems, minContains)
 	max := util.GetInt(maxItems, min+defaultOffset)
 
-	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) || (node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
+	// "additionalItems" only has a meaning next to a tuple and if there is no schema for the other items
+	disallowedAdditionalItems := (node.Items != nil && node.Items.DisallowAdditionalItems) ||
+		(tupleLength != 0 && (node.Items == nil || node.Items.Node == nil) && node.AdditionalItems != nil && node.AdditionalItems.IsFalse)
 
 	// Force the generator to use only the tuple in the event that additional items
 	// are not allowed
@@ -121,7 +128,7 @@ func parseArray(node schemaNode, metadata *parserMetadata) (Generator, error) {
 		UnevaluatedItemsGenerator: unevaluatedItemsGenerator,
 		DisallowUnevaluatedItems:  disallowUnevaluatedItems,
 
-		DisallowAdditional:       node.Items != nil && node.Items.DisallowAdditionalItems,
+		DisallowAdditional:       disallowedAdditionalItems,
 		AdditionalItemsGenerator: additionalItemGenerator,
 
 		MinContains:       minContains,
-- 
2.43.0


From b5ee02c5def319d1299210176091ed8bd944cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 35/37] fix: pattern and additional properties do not replace
 declared ones

A key drawn from patternProperties could be the name of a declared property, whose value was then replaced by one that was not generated from its schema.
---
 object.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/object.go b/object.go
index 73cc2cb..ed8cfd1 100644
--- a/object.go
+++ b/object.go
@@ -220,14 +220,14 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	// Failing that generate any fallback properties
 	if len(g.PatternProperties) > 0 {
 		for i := 0; i < generatorTarget; i++ {
-			regex, value := g.GeneratePatternProperty(opts)
-			generatedValues[regex] = value
+			key, value := g.GeneratePatternProperty(opts)
+			g.setUndeclared(generatedValues, key, value)
 		}
 	} else if g.DisallowAdditionalProperties {
 		return generatedValues
 	} else if g.AdditionalProperties != nil {
 		for i := 0; i < generatorTarget; i++ {
-			generatedValues[fmt.Sprintf("additional_%d", i)] = g.AdditionalProperties.Generate(opts)
+			g.setUndeclared(generatedValues, fmt.Sprintf("additional_%d", i), g.AdditionalProperties.Generate(opts))
 		}
 	} else {
 		for i := 0; i < generatorTarget; i++ {
@@ -235,7 +235,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 				continue
 			}
 
-			generatedValues[fmt.Sprintf("fallback_%d", i)] = g.FallbackGenerator.Generate(opts)
+			g.setUndeclared(generatedValues, fmt.Sprintf("fallback_%d", i), g.FallbackGenerator.Generate(opts))
 		}
 	}
 
@@ -249,7 +249,7 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 		}
 
 		for i := len(generatedValues); i < min; i++ {
-			generatedValues[fmt.Sprintf("min_filler_%d", i)] = generator.Generate(opts)
+			g.setUndeclared(generatedValues, fmt.Sprintf("min_filler_%d", i), generator.Generate(opts))
 		}
 
 	}
@@ -257,6 +257,13 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 	return generatedValues
 }
 
+// Sets a generated value unless its key is one of the declared properties, which have schemas of their own
+func (g objectGenerator) setUndeclared(values map[string]interface{}, key string, value interface{}) {
+	if _, declared := g.Properties[key]; !declared {
+		values[key] = value
+	}
+}
+
 func (g objectGenerator) GeneratePatternProperty(opts *GeneratorOptions) (string, interface{}) {
 	if len(g.PatternProperties) == 0 {
 		return "", nil
-- 
2.43.0


From d51ac9640410e22f75c3e47225412ccba20bc359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 36/37] fix: draw optional keys only from those that are not
 required, so that minProperties is reached

---
 object.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index ed8cfd1..c7f75e2 100644
--- a/object.go
+++ b/object.go
@@ -180,7 +180,9 @@ func (g objectGenerator) Generate(opts *GeneratorOptions) interface{} {
 
 	// Generate A random distribution of optional properties, pattern properties, and additional properties
 	// (Using a fallback generator if none are available)
-	optionalKeys := funk.UniqString(append(append([]string{}, g.Required...), util.SortedMapKeys(g.Properties)...))
+	optionalKeys := funk.FilterString(util.SortedMapKeys(g.Properties), func(key string) bool {
+		return !funk.ContainsString(g.Required, key)
+	})
 
 	min := util.GetInt(g.MinProperties, opts.DefaultObjectMinProperties)
 	max := util.GetInt(g.MaxProperties, opts.DefaultObjectMaxProperties)
-- 
2.43.0


From 571b2357bbdb9c19a8d282c5d62730c9962124b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:05 +0000
Subject: [PATCH 37/37] fix: rewrite every reference next to a property named
 $ref

---
 document.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/document.go b/document.go
index 8b340e0..2c279d7 100644
--- a/document.go
+++ b/document.go
@@ -184,16 +184,10 @@ func (r *documentResolver) RewriteReferencesRelativeToDocument(node schemaNode)
 
 func (r *documentResolver) rewriteReferencesRelativeToDocumentInGenericNode(genericNode genericNode) (genericNode, error) {
 	for key, value := range genericNode {
-		if key == "$ref" {
-			refStr, ok := value.(string)
-
-			// If the value under $ref is not a string, skip it
-			// for polymorphic schemas that may have non-string $ref values
-			// { "properties": {"$ref": {...}}
-			if !ok {
-				return genericNode, nil
-			}
-
+		// If the value under $ref is not a string, treat it like any other value
+		// for polymorphic schemas that may have non-string $ref values
+		// { "properties": {"$ref": {...}}
+		if refStr, ok := value.(string); ok && key == "$ref" {
 			documentId, path, err := r.ResolveDocumentIdAndPath(refStr)
 			if err != nil {
 				return genericNode, fmt.Errorf("failed to resolve document ID and path for ref '%s': %w", refStr, err)
-- 
2.43.0

