From 27f71eba5bc3c9df815f3f5649ccd0e508b9a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 01/14] fix: do not write the label name cache of a tree while
 scoring

---
 evaluation/tree.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..96495e7 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -438,6 +438,10 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 	return nil
 }
 
+func outKey(value string) string {
+	return fmt.Sprintf("probability(%s)", value)
+}
+
 func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	n := node{
 		id:           modelNode.ID,
@@ -477,6 +481,11 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 
 	n.score = score
 
+	m.outKeys[score.value] = outKey(score.value)
+	for _, sd := range n.scoreDist {
+		m.outKeys[sd.value] = outKey(sd.value)
+	}
+
 	for _, child := range modelNode.Nodes {
 		nn, err := newNode(m, child)
 		if err != nil {
@@ -736,8 +745,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 			for _, score := range scores {
 				key, ok := m.outKeys[score.value]
 				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
+					key = outKey(score.value)
 				}
 
 				out[key] = NewValue(score.probability)
-- 
2.43.0


From ab535f9e2c8865526371f7af015fc9c8c0d41b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 02/14] fix: parse arrays on every read instead of sharing a
 lazily written cache

---
 models/complexTypes.go | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..3ef1dce 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -34,10 +34,6 @@ type ArrayType struct {
 	Type ArrayTypeType `xml:"type,attr"`
 
 	RawValue string `xml:",innerxml"`
-
-	s []string
-	i []int64
-	f []float64
 }
 
 func (at *ArrayType) Strings() ([]string, error) {
@@ -45,13 +41,7 @@ func (at *ArrayType) Strings() ([]string, error) {
 		return nil, errors.New("not a string array")
 	}
 
-	if at.s != nil {
-		return at.s, nil
-	}
-
-	var err error
-	at.s, err = shellwords.Parse(at.RawValue)
-	return at.s, err
+	return shellwords.Parse(at.RawValue)
 }
 
 func (at *ArrayType) Int64s() ([]int64, error) {
@@ -59,10 +49,6 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return nil, errors.New("not an int array")
 	}
 
-	if at.i != nil {
-		return at.i, nil
-	}
-
 	ints, err := shellwords.Parse(at.RawValue)
 	if err != nil {
 		return nil, err
@@ -79,9 +65,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		result = append(result, val)
 	}
 
-	at.i = result
-
-	return at.i, err
+	return result, nil
 }
 
 func (at *ArrayType) Float64s() ([]float64, error) {
@@ -89,10 +73,6 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return nil, errors.New("not a float array")
 	}
 
-	if at.f != nil {
-		return at.f, nil
-	}
-
 	ints, err := shellwords.Parse(at.RawValue)
 	if err != nil {
 		return nil, err
@@ -109,9 +89,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		result = append(result, val)
 	}
 
-	at.f = result
-
-	return at.f, err
+	return result, nil
 }
 
 /*
-- 
2.43.0


From 59678b85bc18bce85d9544e3dad71a3eebc707a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 03/14] fix: aggregate tree scores in document order, not in
 map order

---
 evaluation/tree.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 96495e7..2bd28e8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -259,12 +259,16 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 	var trueDist []scoreDist
 	childRecordCounts := make(map[string]float64)
 	childScores := make(map[string][]scoreDist)
+	var childIDs []string // the keys of childScores in document order
 	totalRecordCount := 0.0
 
 	for _, c := range n.children {
 		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
 
 		if childResult != f {
+			if _, ok := childScores[c.id]; !ok {
+				childIDs = append(childIDs, c.id)
+			}
 			childRecordCounts[c.id] = c.score.recordCount
 			childScores[c.id] = scores
 			totalRecordCount += c.score.recordCount
@@ -284,11 +288,14 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
 
-		for nid, scores := range childScores {
-			for _, score := range scores {
+		var aggValues []string // the keys of aggScoreMap in order of appearance
+
+		for _, nid := range childIDs {
+			for _, score := range childScores[nid] {
 				aggScore, ok := aggScoreMap[score.value]
 				if !ok {
 					aggScore = scoreDist{value: score.value}
+					aggValues = append(aggValues, score.value)
 				}
 				nodeRecordCount := childRecordCounts[nid]
 
@@ -301,8 +308,8 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
+		for _, value := range aggValues {
+			aggScores = append(aggScores, aggScoreMap[value])
 		}
 
 		return aggScores, t
@@ -339,6 +346,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		var aggValues []string // the keys of aggScoreMap in order of appearance
 
 		recordCount := 0.0
 		for _, sc := range childScores {
@@ -346,6 +354,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 			if !ok {
 				aggScore.value = sc.value
+				aggValues = append(aggValues, sc.value)
 			}
 
 			aggScore.recordCount += sc.recordCount
@@ -354,7 +363,8 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
+		for _, value := range aggValues {
+			aggScore := aggScoreMap[value]
 			aggScore.probability = aggScore.recordCount / recordCount
 			aggScore.confidence = aggScore.recordCount / recordCount
 			aggScores = append(aggScores, aggScore)
-- 
2.43.0


From 5a5defdbf28f2d71b843220de1f6b7f392f2ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 04/14] fix: scoring works on a private copy of the caller's
 row

---
 evaluation/mining.go       | 3 ++-
 evaluation/miningschema.go | 9 +++++++++
 evaluation/tree.go         | 5 +++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..bc40e78 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -232,7 +232,8 @@ func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
 		return nil, ErrNotCompiled
 	}
 
-	input, err = m.imputeMissingValues(input)
+	// imputed defaults, derived fields and chained results go to a private row
+	input, err = m.imputeMissingValues(input.clone())
 	if err != nil {
 		return nil, err
 	}
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..8ae51e0 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -111,3 +111,12 @@ func (v Value) String() string {
 }
 
 type DataRow map[string]Value
+
+// clone returns a copy of the row that can be written to without the caller noticing.
+func (r DataRow) clone() DataRow {
+	c := make(DataRow, len(r))
+	for k, v := range r {
+		c[k] = v
+	}
+	return c
+}
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 2bd28e8..6ee1e53 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -739,6 +739,11 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		return nil, ErrNotCompiled
 	}
 
+	if len(m.model.LocalTransformations.DerivedFields) > 0 {
+		// derived fields go to a private row
+		input = input.clone()
+	}
+
 	input, err = HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3e377c36111fef086f231b0e5bca19a145332e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 05/14] fix: building a model leaves the parsed document
 unchanged

Validate wrote defaults into the document's model element, Compile appended
local derived fields to the document's transformation dictionary and stored
compiled values in its predicates. All three now happen on private copies.
---
 evaluation/mining.go     | 15 +++++++++------
 evaluation/regression.go |  4 +++-
 evaluation/tree.go       | 39 ++++++++++++++++++++++++++-------------
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index bc40e78..dcd551e 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -27,7 +27,9 @@ func NewMiningModel(dd *models.DataDictionary, td *models.TransformationDictiona
 	m := new(MiningModel)
 	m.dd = dd
 	m.td = td
-	m.model = model
+	// Validate fills in defaults: it does so on a private copy, the document can be shared
+	mdl := *model
+	m.model = &mdl
 
 	err := m.Validate()
 	if err != nil {
@@ -88,11 +90,12 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	// the segments also see the local derived fields, the document's dictionary is left as it is
+	td := *m.td
+	td.DerivedFields = append([]models.DerivedField(nil), m.td.DerivedFields...)
+	td.DerivedFields = append(td.DerivedFields, m.model.LocalTransformations.DerivedFields...)
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
@@ -102,7 +105,7 @@ func (m *MiningModel) Compile() error {
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, &td, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..9c9e6f2 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -21,7 +21,9 @@ func NewRegressionModel(dd *models.DataDictionary, td *models.TransformationDict
 	m := new(RegressionModel)
 	m.dd = dd
 	m.td = td
-	m.model = model
+	// Validate fills in defaults: it does so on a private copy, the document can be shared
+	mdl := *model
+	m.model = &mdl
 
 	return m, nil
 }
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 6ee1e53..79e13b9 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -380,7 +380,10 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m := new(TreeModel)
 	m.dd = dd
 	m.td = td
-	m.model = model
+	// Validate fills in defaults: it does so on a private copy, the document can be shared
+	mdl := *model
+	mdl.MiningSchema.MiningFields = append([]models.MiningField(nil), model.MiningSchema.MiningFields...)
+	m.model = &mdl
 	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
@@ -422,30 +425,40 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
-func compilePredicate(m *TreeModel, pi models.Predicate) error {
+// compilePredicate returns a compiled copy of a predicate, the one in the document is left as it is.
+func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, error) {
 	switch p := pi.(type) {
 	case *models.SimplePredicate:
 		predicateValueType, ok := m.fieldTypes[p.Field]
 		if !ok {
-			return fmt.Errorf("unknown field type for %s", p.Field)
+			return nil, fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
-		p.RawPredicateValue = pv
+		compiled := *p
+		compiled.RawPredicateValue = pv
+		return &compiled, nil
 	case *models.CompoundPredicate:
+		compiled := *p
+		compiled.Predicates = make([]models.Predicate, 0, len(p.Predicates))
+
 		for _, cp := range p.Predicates {
-			err := compilePredicate(m, cp)
+			ccp, err := compilePredicate(m, cp)
 			if err != nil {
-				return err
+				return nil, err
 			}
+
+			compiled.Predicates = append(compiled.Predicates, ccp)
 		}
+
+		return &compiled, nil
 	}
 
-	return nil
+	return pi, nil
 }
 
 func outKey(value string) string {
@@ -504,12 +517,12 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	err := compilePredicate(m, modelNode.Predicate)
+	predicate, err := compilePredicate(m, modelNode.Predicate)
 	if err != nil {
 		return n, err
 	}
 
-	switch p := modelNode.Predicate.(type) {
+	switch p := predicate.(type) {
 	case *models.True:
 		n.test = func(DataRow) predicateResult { return t }
 	case *models.False:
@@ -705,11 +718,11 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+	for _, df := range m.td.DerivedFields {
+		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range m.model.LocalTransformations.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From b392945e8c666d37c8da0180de643bdc30a469df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 06/14] fix: compiling a mining model again does not duplicate
 its segments

---
 evaluation/mining.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index dcd551e..802124e 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -99,6 +99,8 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	segmodels := make([]Model, 0, len(m.model.Segmentation.Segments))
+
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
@@ -111,9 +113,10 @@ func (m *MiningModel) Compile() error {
 			return err
 		}
 
-		m.segmodels = append(m.segmodels, mdl)
+		segmodels = append(segmodels, mdl)
 	}
 
+	m.segmodels = segmodels
 	m.compiled = true
 
 	return nil
-- 
2.43.0


From f5041344370ed3c75f40356603d0de30db57d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 07/14] fix: self-verification accepts negative values and
 rejects NaN predictions

The tolerance was computed from the signed recorded value, so a negative
one was never accepted, and a NaN prediction was never refused.
---
 evaluation/evaluation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..f56bc1c 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -73,7 +73,8 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				// written so that a prediction that is not a number fails
+				if expected != predicted && !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From 7b5882aaf4426680d6d79d2bf599217817de9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 08/14] fix: concurrent first loads raced on the lazy global of
 go-defaults

---
 models/defaults.go | 11 +++++++++++
 1 file changed, 11 insertions(+)
 create mode 100644 models/defaults.go

diff --git a/models/defaults.go b/models/defaults.go
new file mode 100644
index 0000000..d898220
--- /dev/null
+++ b/models/defaults.go
@@ -0,0 +1,11 @@
+package models
+
+import (
+	defaults "github.com/mcuadros/go-defaults"
+)
+
+func init() {
+	// The first use of the defaults package sets a global without locking.
+	// Do it here, documents can be loaded concurrently.
+	defaults.SetDefaults(&struct{}{})
+}
-- 
2.43.0


From 30206bd6dfce46a6bbd5e531d444aee30fd11424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 09/14] fix: refuse a tree node without a usable predicate
 instead of panicking on it

---
 evaluation/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 79e13b9..a23ed55 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -539,6 +539,8 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return f
 		}
+	default:
+		return n, fmt.Errorf("node %q: missing or unsupported predicate", n.id)
 	}
 
 	return n, nil
-- 
2.43.0


From 5ad6d89132ee472dad9e96461f31446fad1700d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 10/14] fix: a regression tree without a score distribution
 panicked

With a target field that lists no values, or a null prediction, the list
of scores is empty and its first element was used.
---
 evaluation/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index a23ed55..d47a078 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -108,7 +108,7 @@ func (n node) outputScoreDist() []scoreDist {
 
 	sd := make([]scoreDist, 0, 0)
 
-	if n.m.targetField != "" {
+	if n.m.targetField != "" && n.m.model.FunctionName != models.MiningFunctionRegression {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
@@ -781,6 +781,11 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
+			if len(scores) == 0 {
+				// null prediction
+				return nil, nil
+			}
+
 			score, err := strconv.ParseFloat(scores[0].value, 64)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 94116a5948a3c115267bec7f2f23bd140e4b0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 11/14] fix: refuse a missing value replacement that is not a
 number

For a numeric field it was silently scored as 0.
---
 evaluation/mining.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 802124e..1d5720f 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/flukeish/pmml/models"
+	"strconv"
 )
 
 type MiningModel struct {
@@ -99,6 +100,20 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	// Value.Float64 reads text that is not a number as 0
+	for _, f := range m.model.MiningSchema.MiningFields {
+		if f.MissingValueReplacement == nil {
+			continue
+		}
+
+		switch m.fieldTypes[f.Name] {
+		case models.DataTypeInteger, models.DataTypeFloat, models.DataTypeDouble:
+			if _, err := strconv.ParseFloat(*f.MissingValueReplacement, 64); err != nil {
+				return fmt.Errorf("missing value replacement of %s: %v", f.Name, err)
+			}
+		}
+	}
+
 	segmodels := make([]Model, 0, len(m.model.Segmentation.Segments))
 
 	for _, seg := range m.model.Segmentation.Segments {
-- 
2.43.0


From 9d2e529ff099b87c5a5f31f1975924ed43b12736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:54 +0000
Subject: [PATCH 12/14] fix: self-verification passes recorded inputs under
 their field names, not their column names

---
 evaluation/evaluation.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f56bc1c..a74e6fe 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -35,26 +35,25 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	}
 
 	outputMap := make(map[string]string)
-	inputMap := make(map[string]string)
+	inputs := make([]models.VerificationField, 0, len(mv.VerificationFields.Fields))
 
 	for _, vField := range mv.VerificationFields.Fields {
 		if !strings.HasPrefix(vField.Column, "data:") {
 			return fmt.Errorf("verification field missing 'data:' prefix: %s", vField.Column)
 		}
-		colName := vField.Column[5:]
 		if vField.Precision == nil {
-			inputMap[colName] = string(vField.Field)
+			inputs = append(inputs, vField)
 		} else {
-			outputMap[colName] = string(vField.Field)
+			outputMap[vField.Column[5:]] = string(vField.Field)
 		}
 	}
 
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
-		for k, v := range vRow {
-			_, isInput := inputMap[k]
-			if isInput {
-				input[k] = NewValue(v)
+		for _, vField := range inputs {
+			v, ok := vRow[vField.Column[5:]]
+			if ok {
+				input[string(vField.Field)] = NewValue(v)
 			}
 		}
 
-- 
2.43.0


From 3532ad07a3e8bf18e33016906a03d6d1be209b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 13/14] fix: self-verification gives recorded inputs the type
 of their field

---
 evaluation/evaluation.go | 22 ++++++++++++++++++++--
 evaluation/mining.go     |  2 +-
 evaluation/regression.go |  2 +-
 evaluation/tree.go       |  2 +-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index a74e6fe..fa76921 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -29,11 +29,29 @@ func NewModel(dd *models.DataDictionary, td *models.TransformationDictionary, md
 	}
 }
 
-func verifyModel(m Model, mv *models.ModelVerification) error {
+// recordedInput gives a recorded input, which is text, the type of its field, as callers do.
+func recordedInput(dt models.DataType, v interface{}) Value {
+	if s, ok := v.(string); ok {
+		if raw, err := getRawValue(dt, s); err == nil {
+			return NewValue(raw)
+		}
+	}
+
+	return NewValue(v)
+}
+
+func verifyModel(m Model, dd *models.DataDictionary, mv *models.ModelVerification) error {
 	if mv == nil {
 		return nil
 	}
 
+	fieldTypes := make(map[models.FieldName]models.DataType)
+	if dd != nil {
+		for _, df := range dd.DataFields {
+			fieldTypes[df.Name] = df.DataType
+		}
+	}
+
 	outputMap := make(map[string]string)
 	inputs := make([]models.VerificationField, 0, len(mv.VerificationFields.Fields))
 
@@ -53,7 +71,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		for _, vField := range inputs {
 			v, ok := vRow[vField.Column[5:]]
 			if ok {
-				input[string(vField.Field)] = NewValue(v)
+				input[string(vField.Field)] = recordedInput(fieldTypes[vField.Field], v)
 			}
 		}
 
diff --git a/evaluation/mining.go b/evaluation/mining.go
index 1d5720f..d5ea04d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -46,7 +46,7 @@ func NewMiningModel(dd *models.DataDictionary, td *models.TransformationDictiona
 }
 
 func (m *MiningModel) Verify() error {
-	return verifyModel(m, m.model.ModelVerification)
+	return verifyModel(m, m.dd, m.model.ModelVerification)
 }
 
 func (m *MiningModel) Validate() error {
diff --git a/evaluation/regression.go b/evaluation/regression.go
index 9c9e6f2..f74659b 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -61,7 +61,7 @@ func (m *RegressionModel) Validate() error {
 }
 
 func (m *RegressionModel) Verify() error {
-	return verifyModel(m, m.model.ModelVerification)
+	return verifyModel(m, m.dd, m.model.ModelVerification)
 }
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
diff --git a/evaluation/tree.go b/evaluation/tree.go
index d47a078..d8b687b 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -740,7 +740,7 @@ func (m *TreeModel) Compile() error {
 }
 
 func (m *TreeModel) Verify() error {
-	return verifyModel(m, m.model.ModelVerification)
+	return verifyModel(m, m.dd, m.model.ModelVerification)
 }
 
 func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
-- 
2.43.0


From e55c701daa42ace0d6e1ec074c95dffbcc288611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:17 +0000
Subject: [PATCH 14/14] fix: self-verification refuses every finite prediction
 when the recorded value is infinite

---
 evaluation/evaluation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index fa76921..68d0f1f 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -90,8 +90,8 @@ func verifyModel(m Model, dd *models.DataDictionary, mv *models.ModelVerificatio
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				// written so that a prediction that is not a number fails
-				if expected != predicted && !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
+				// written so that a prediction that is not a number fails, and no tolerance is infinite
+				if expected != predicted && !(math.Abs(delta) <= 1e-5*math.Min(math.Abs(expected), math.MaxFloat64)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0

