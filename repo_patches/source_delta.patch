From da026d6c67d6f332f93b0c7917f9df99d4417a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 01/38] fix: floor the residual in AIC, AICc and BIC so exact
 fits keep finite scores

---
 featselect/criteria.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/criteria.go b/featselect/criteria.go
index 50015ff..50c88f1 100644
--- a/featselect/criteria.go
+++ b/featselect/criteria.go
@@ -15,7 +15,7 @@ type crit func(num_feat int, num_data int, logL float64) float64
 // featues (num_feat), number of data points (num_data) and
 // the log of the likelihood function
 func Aic(numFeat int, numData int, logL float64) float64 {
-	return 2.0*float64(numFeat) + float64(numData)*math.Log(logL)
+	return 2.0*float64(numFeat) + float64(numData)*math.Log(math.Max(logL, RssTol))
 }
 
 // Aicc calculates the corrected Aic which is more accurate
@@ -31,7 +31,7 @@ func Aicc(numFeat int, numData int, logL float64) float64 {
 
 // Bic returns Bayes Information Criteria
 func Bic(numFeat int, numData int, logL float64) float64 {
-	return float64(numFeat)*math.Log(float64(numData)) + float64(numData)*math.Log(logL)
+	return float64(numFeat)*math.Log(float64(numData)) + float64(numData)*math.Log(math.Max(logL, RssTol))
 }
 
 // Calculata a lower and upper bound of all sub-models. The bits up until
-- 
2.43.0


From 9fe76fbb6d53a27a3f6789b045ea1f20f35fe7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 02/38] fix: inserting into a highscore list of capacity one
 panicked

---
 featselect/highscore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..51110a4 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -21,7 +21,7 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	if h.Len() > 0 && h.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
-- 
2.43.0


From 44df7ee25ff054b3e9fd65731e4999cf03ebda95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 03/38] fix: decoding a highscore list lost entries of a full
 list and panicked on a zero value

---
 featselect/highscore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 51110a4..4bad8d2 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -102,9 +102,12 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	h.MaxItems = aux.MaxItems
+	h.Items = list.New()
 
+	// The items are stored in order, so they are restored without applying the
+	// eviction rule of Insert again
 	for _, n := range aux.Items {
-		h.Insert(n)
+		h.Items.PushBack(n)
 	}
 	return nil
 }
-- 
2.43.0


From 119e5279700629a39ed8dd302a5590030d7e961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 04/38] fix: guard the highscore list with a lock, it is read
 while a search fills it

---
 featselect/highscore.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 4bad8d2..c725ffa 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,14 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
 // Highscore is a structure that holds a list of Nodes sorted by their score
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	lock     sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,7 +23,10 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() > 0 && h.Len() == h.MaxItems-1 {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	if h.Items.Len() > 0 && h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
@@ -43,18 +48,22 @@ func (h *Highscore) Insert(node *Node) {
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted && h.Items.Len() < h.MaxItems {
 		h.Items.PushBack(node)
 	}
 }
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -65,7 +74,9 @@ func (h *Highscore) BestScore() float64 {
 
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+	scores := make([]float64, h.Items.Len())
 	i := 0
 	for item := h.Items.Front(); item != nil; item = item.Next() {
 		scores[i] = item.Value.(*Node).Score
@@ -76,12 +87,14 @@ func (h *Highscore) Scores() []float64 {
 
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
+	h.lock.RLock()
+	data := make([]*Node, h.Items.Len())
 	counter := 0
 	for e := h.Items.Front(); e != nil; e = e.Next() {
 		data[counter] = e.Value.(*Node)
 		counter++
 	}
+	h.lock.RUnlock()
 	return json.Marshal(&struct {
 		MaxItems int     `json:"maxItems"`
 		Items    []*Node `json:"items"`
-- 
2.43.0


From 14181a56352e277b7c638cd2e601bc5168963f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 05/38] fix: branch and bound wrote its default start model
 into the caller's options

---
 featselect/optimize.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..2acce14 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -81,15 +81,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		panic("SelectModel: The number of features has to be larger or equal to 3.")
 	}
 
-	if params.RootModel == nil {
-		params.RootModel = make([]bool, ncols)
+	rootModel := params.RootModel
+	if rootModel == nil {
+		rootModel = make([]bool, ncols)
 	} else {
-		if len(params.RootModel) != ncols {
+		if len(rootModel) != ncols {
 			panic("SelectModel: Inconsistent length of rootModel.")
 		}
 	}
 
-	rootNode := NewNode(0, params.RootModel)
+	rootNode := NewNode(0, rootModel)
 
 	log2Pruned := 0.0
 	numChecked := 0
-- 
2.43.0


From 2a4eda8eb83f34632926fea664faaddab159db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 06/38] fix: branch and bound never scored the start model,
 listed the empty model and leaked workers

---
 featselect/optimize.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 2acce14..d3673c6 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -71,7 +71,7 @@ func NewSelectModelOptParams() *SelectModelOptParams {
 func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProgress, params *SelectModelOptParams) {
 	queue := list.New()
 
-	_, ncols := X.Dims()
+	nrows, ncols := X.Dims()
 
 	if params == nil {
 		params = NewSelectModelOptParams()
@@ -91,6 +91,9 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	}
 
 	rootNode := NewNode(0, rootModel)
+	if NumFeatures(rootModel) > 0 {
+		rootNode.Lower, rootNode.Upper = BoundsAICC(rootModel, 0, X, y)
+	}
 
 	log2Pruned := 0.0
 	numChecked := 0
@@ -98,7 +101,6 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	node := make(chan *Node)
 	score := make(chan *Node)
 	wantChildNode := make(chan *Node)
-	childReady := make(chan bool)
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
@@ -107,13 +109,17 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		go ScoreWorker(node, score, X, y)
 	}
 
+	// The last notifications are never read, so the workers must not block on them
 	numChildWorkers := 8
+	childReady := make(chan bool, numChildWorkers)
 	for i := 0; i < numChildWorkers; i++ {
 		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
 	}
 
-	wantChildNode <- rootNode
-	numInProgress := 2
+	// The start model is a candidate itself, so it is scored like any other node
+	node <- rootNode
+	childReady <- true
+	numInProgress := 1
 
 exploreLoop:
 	for {
@@ -122,7 +128,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) {
+			if isCandidate(ns, nrows) {
 				highscore.Insert(ns)
 				numChecked++
 
@@ -215,13 +221,20 @@ func isNewNode(node *Node) bool {
 	return node.WasFlipped
 }
 
+// isCandidate returns true if the model of a node should be scored: it has not been
+// scored before, is not empty and has fewer features than there are data points
+func isCandidate(node *Node, nrows int) bool {
+	n := NumFeatures(node.Model)
+	return isNewNode(node) && n > 0 && n < nrows
+}
+
 // ScoreWorker is a function that calculates the score of a node
 func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []float64) {
 	nrows, _ := X.Dims()
 	for n := range nodeCh {
 		numFeat := NumFeatures(n.Model)
 
-		if numFeat > 0 && isNewNode(n) {
+		if isCandidate(n, nrows) {
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
 			rss := Rss(design, n.Coeff, y)
-- 
2.43.0


From 21239daacc26b2fbd64159f1cc149c03b85455cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 07/38] fix: a start model with many features made branch and
 bound drop smaller models below it

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index d3673c6..d026724 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -252,7 +252,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 	child := node.GetChildNode(flip)
 	n := NumFeatures(child.Model)
 	nrows, _ := X.Dims()
-	if n < nrows {
+	if NumFeatures(Lcs(child.Model, child.Level)) < nrows {
 		if n > 0 {
 			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
 		} else {
-- 
2.43.0


From f5f878abf9b082fa0076ad5c740039b9563d87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 08/38] fix: the cutoff of branch and bound was ignored

---
 featselect/optimize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index d026724..04a008e 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -134,7 +134,7 @@ exploreLoop:
 
 				if highscore.BestScore() > currentBestScore {
 					currentBestScore = highscore.BestScore()
-					CleanQueue(queue, -currentBestScore)
+					CleanQueue(queue, -currentBestScore-params.Cutoff)
 				}
 			}
 
@@ -263,7 +263,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	if h.Len() > 0 && child.Lower+cutoff > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From 35b9734d4482874635d2cdc2fddb5f27bb1afbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 09/38] fix: the search progress was not updated with the last
 explored models

---
 featselect/optimize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 04a008e..064b452 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -171,6 +171,7 @@ exploreLoop:
 			wantChildNode <- node
 		}
 	}
+	sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 	close(node)
 	close(wantChildNode)
 	close(pruneCh)
-- 
2.43.0


From 8ca16fa0ef6ab55bba275b87dffa0c54509677da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 10/38] fix: round-off made the queue limit drop every node

---
 featselect/optimize.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 064b452..fe4e664 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -305,9 +305,13 @@ func CleanQueue(q *list.List, threshold float64) {
 // mean Lower bound
 func RemoveLeastPromising(q *list.List) {
 	avgLowerBound := 0.0
+	minLowerBound := math.Inf(1)
 	for item := q.Front(); item != nil; item = item.Next() {
 		avgLowerBound += item.Value.(*Node).Lower
+		minLowerBound = math.Min(minLowerBound, item.Value.(*Node).Lower)
 	}
 	avgLowerBound /= float64(q.Len())
-	CleanQueue(q, avgLowerBound)
+
+	// Due to round-off the average can be smaller than all the bounds
+	CleanQueue(q, math.Max(avgLowerBound, minLowerBound))
 }
-- 
2.43.0


From d97e9283f350745229aab8da6a0674a6411feda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 11/38] fix: the log2 count of pruned models overflowed for
 more than 1024 features

---
 featselect/util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..5f2454b 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -71,8 +71,9 @@ func Sum(a []int) int {
 // current is log2 of the current number of pruned solutions
 // numPruned is log2 of the new number of pruned solutions
 func NewLog2Pruned(current float64, numPruned int) float64 {
-	diff := float64(numPruned) - current
-	return current + math.Log2(1+math.Pow(2, diff))
+	larger := math.Max(current, float64(numPruned))
+	smaller := math.Min(current, float64(numPruned))
+	return larger + math.Log2(1+math.Pow(2, smaller-larger))
 }
 
 // RearrangeDense changes the order of the columns in the matrix X such that they appear
-- 
2.43.0


From d217ac726163863717a3da7760dea4edaf9cdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 12/38] fix: replacing the worst annealing result kept its
 coefficients

---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From 85feb8981861cc5971ae554acf819a4a3a989cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 13/38] fix: lasso coordinate descent left out features that
 violate the KKT conditions

---
 featselect/lassoCrdDesc.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..35d16da 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -9,6 +9,9 @@ import (
 
 const lassoCrdDescZero = 1e-16
 
+// Tolerance when checking if a feature that is not selected should be
+const lassoKKTTol = 1e-10
+
 // CorrectableLasso is a function that implements the lasso method with corrections
 type CorrectableLasso = func(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64, maxIter int, tol float64, corr LassoCorrection) []float64
 
@@ -25,6 +28,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	yVec := mat.NewVecDense(len(dset.y), dset.y)
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
+	XTy.ScaleVec(1.0/float64(nr), XTy)
 
 	iterIndices := make([]int, nFeat-1)
 	for i := 1; i < nFeat; i++ {
@@ -41,7 +45,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			covDiag := covMat.At(j, j)
 			oldCoeff := betaOld[j]
 			covDotBetaNoDiag := covDotBeta[j] - betaOld[j]*covDiag
-			newCoeff := XTy.AtVec(j)/float64(nr) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
+			newCoeff := XTy.AtVec(j) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
 			newCoeff = SoftThreshold(newCoeff, lamb) / covDiag
 
 			UpdateCovDotBeta(covMat, covDotBeta, j, oldCoeff, newCoeff)
@@ -62,7 +66,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
@@ -101,13 +105,13 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
+// UnsatisfiedKKTConditions returns the indices of the features that are not selected, but where the
+// KKT conditions are not met. Xy is the product of X^T and y divided by the number of rows
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
-	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+	for i := 0; i < len(covDotBeta); i++ {
+		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value > lamb*(1.0+lassoKKTTol)+lassoKKTTol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From c2b82d90be698a2488562331ffc627baeb092509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 14/38] fix: lasso coordinate descent ignored the first feature
 of datasets without a constant column

---
 featselect/lassoCrdDesc.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 35d16da..276c758 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -30,9 +30,12 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	XTy.MulVec(dset.X.T(), yVec)
 	XTy.ScaleVec(1.0/float64(nr), XTy)
 
-	iterIndices := make([]int, nFeat-1)
-	for i := 1; i < nFeat; i++ {
-		iterIndices[i-1] = i
+	// A constant first column (bias) is not included
+	iterIndices := []int{}
+	for i := 0; i < nFeat; i++ {
+		if i > 0 || !dset.HasBias {
+			iterIndices = append(iterIndices, i)
+		}
 	}
 
 	betaOld := make([]float64, nFeat)
-- 
2.43.0


From 9bf403e35ffe6a1974dc302fb9be2ca8e36687f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 15/38] fix: lasso coordinate descent zeroed the start vector
 instead of starting from it

---
 featselect/lassoCrdDesc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 276c758..6fd193a 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -39,7 +39,9 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	for _, j := range iterIndices {
+		betaOld[j] = x0[j]
+	}
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From 8930653f4fc988a94a43b451f7e2ea59fde076a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 16/38] fix: parallel lasso solvers shared the state of a
 covariance lasso correction

---
 featselect/lassoCorrections.go | 7 +++++++
 featselect/lassoCrdDesc.go     | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/featselect/lassoCorrections.go b/featselect/lassoCorrections.go
index b43d608..45a847c 100644
--- a/featselect/lassoCorrections.go
+++ b/featselect/lassoCorrections.go
@@ -38,6 +38,13 @@ func NewCLasso(numFeat int, eta float64) *CLasso {
 	return &cl
 }
 
+// clone returns an independent copy
+func (cl *CLasso) clone() *CLasso {
+	cpy := NewCLasso(len(cl.beta), cl.eta)
+	copy(cpy.beta, cl.beta)
+	return cpy
+}
+
 // Update updates the feature covariance matrix
 func (cl *CLasso) Update(beta []float64) {
 	copy(cl.beta, beta)
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 6fd193a..a2be71f 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -22,6 +22,11 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 		x0 = make([]float64, nFeat)
 	}
 
+	// The correction can be shared with other solvers, so its state must not be altered
+	if cl, ok := corr.(*CLasso); ok {
+		corr = cl.clone()
+	}
+
 	covMat := cov.Get(dset.X)
 
 	// Precalcuations
-- 
2.43.0


From 392e1d3616c0172f39ca7ce5b43446e953b727b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 17/38] fix: the workers of a coordinate descent path never
 terminated

---
 featselect/lassoCrdDesc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index a2be71f..fdf2440 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -266,6 +266,7 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 			break
 		}
 	}
+	close(workChan)
 	return nodes[firstModelWithFeatures:]
 }
 
-- 
2.43.0


From 69c9c00062c487dbbf59a35a36ef83f479cbc372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 18/38] fix: the workers of a kappa sequence never terminated

---
 featselect/cohens_kappa.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 604498c..2031c79 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -109,6 +109,8 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 		}
 	}
 
+	close(workChannel)
+
 	srt := Argsort(allKappas)
 	fmt.Printf("-------------------------------------------------------------------\n")
 	fmt.Printf("                    COHEN'S KAPPA SUMMARY                          \n")
-- 
2.43.0


From 46046cef3fb8477216a17d06b8fe25b5f9f4a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 19/38] fix: the workers of a threshold search never terminated

---
 featselect/thresholdCov.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/thresholdCov.go b/featselect/thresholdCov.go
index dfb8288..819e5b5 100644
--- a/featselect/thresholdCov.go
+++ b/featselect/thresholdCov.go
@@ -109,7 +109,7 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 				work.gr = 0
 				gridPt = 1
 			}
-			if gridPt <= numGrid {
+			if gridPt <= numGrid && numReceives < numSamples*numGrid {
 				workChannel <- work
 			}
 		case <-ticker:
@@ -117,6 +117,8 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 		}
 	}
 
+	close(workChannel)
+
 	minIdx := Argmin(meanNormDiff)
 	var op ThresholdOperator
 	op.threshold = getThreshold(minIdx, step)
-- 
2.43.0


From c73fee386bc56bfd9c047d06751076eff7ea3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 20/38] fix: concurrent use of a sparse covariance estimator
 was a data race

---
 featselect/covarianceMatrix.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/covarianceMatrix.go b/featselect/covarianceMatrix.go
index fbddf68..719a904 100644
--- a/featselect/covarianceMatrix.go
+++ b/featselect/covarianceMatrix.go
@@ -64,6 +64,7 @@ func (s *SparseThresholded) Get(X mat.Matrix) mat.Matrix {
 	cov := mat.NewDense(nc, nc, nil)
 	cov.Product(X.T(), X)
 	cov.Scale(1.0/float64(nr), cov)
-	s.op.Apply(cov)
+	op := *s.op // Applying alters the operator, which is shared by parallel solvers
+	op.Apply(cov)
 	return cov
 }
-- 
2.43.0


From d861303f0efa8c7c771b0a1151868c9dff3aae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 21/38] fix: nested lasso normalised the dataset it was given

---
 featselect/nestedLasso.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..a67ecba 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -66,7 +66,8 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	dataCpy := data.Copy()
+	normD = NewNormalizedData(dataCpy.X, dataCpy.Y)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From ccf9021e2cef96c74cd0fde4603c0e3c3b4e3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 22/38] fix: nested lasso mapped features wrongly unless the
 target was the last column

---
 featselect/nestedLasso.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index a67ecba..a90d248 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -52,8 +52,12 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		survivors := path.PickMostRelevantFeatures(newNum)
 
 		// Map selection
+		featNames := make([]string, currentNumCoeff)
+		for i := range featNames {
+			featNames[i] = curDset.GetFeatName(i)
+		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
 		if newNum <= 2 {
-- 
2.43.0


From 19090df8397b81b60823c2a44328c7d19149aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 23/38] fix: numbers surrounded by blanks in a CSV file were
 read as zero

---
 featselect/csvIO.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..83f354f 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -135,7 +136,7 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
+				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
 					row[i] = fl
 				}
 			}
-- 
2.43.0


From 401f86d5377be2b300f97cb16c7988820dbf7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 24/38] fix: Cohen's kappa of two complete selections was NaN

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 5f2454b..118c268 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -465,5 +465,9 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+	if PrE == 1.0 {
+		// Both selections contain all features
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0


From 876fa68443a04afe40e81d435860497f08d0d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 25/38] fix: rows of the cartesian product overwrote each other

---
 featselect/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index 118c268..d1722ea 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,7 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				newRow := append(append([]int{}, res[j]...), values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From ad476cb83c8b37971ecdd65d4317034d11f2fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 26/38] fix: computing model weights altered the criterion
 values

---
 featselect/util.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index d1722ea..77a08a5 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -277,17 +277,13 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		sumW += math.Exp(min - aic[i])
 	}
 
 	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+		w[i] = math.Exp(min-aic[i]) / sumW
 	}
 	return w
 }
-- 
2.43.0


From 36d1bd993f5c398fa7287a25d39ba8e9e20aab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 27/38] fix: the leave-one-out residual was not squared in the
 cross validation score

---
 featselect/fit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/fit.go b/featselect/fit.go
index a32a915..721bfed 100644
--- a/featselect/fit.go
+++ b/featselect/fit.go
@@ -102,7 +102,7 @@ func DenumMatrixGcv(X mat.Matrix) *mat.Dense {
 func Gcv(denum mat.Matrix, data []float64, pred []float64) float64 {
 	gcv := 0.0
 	for i := 0; i < len(data); i++ {
-		gcv += math.Pow(data[i]-pred[i], 2.0) / (1.0 - denum.At(i, i))
+		gcv += math.Pow((data[i]-pred[i])/(1.0-denum.At(i, i)), 2.0)
 	}
 	return math.Sqrt(gcv / float64(len(pred)))
 }
-- 
2.43.0


From dfe11a281cd0ceabafce828db60c0785f7dcf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 28/38] fix: the path plot left out the last feature

---
 featselect/lassoPlot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..0776af8 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -224,7 +224,7 @@ func (p *LassoLarsPath) PlotPath(cr *AxisRange) *plot.Plot {
 
 	_, numFeat := p.MaxMinFeatNo()
 
-	for featNo := 0; featNo < numFeat; featNo++ {
+	for featNo := 0; featNo <= numFeat; featNo++ {
 		xy := p.ExtractPath(featNo)
 		line, err := plotter.NewLine(xy)
 
-- 
2.43.0


From 7c8728afcf2313470c32acda2deb804ac463b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 29/38] fix: the plotting tool ignored the requested
 coefficient range

---
 cmdDepreciated/goselect-plotlasso/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..fb570be 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -41,6 +41,8 @@ func main() {
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
 
+	flag.Parse()
+
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
 	var coeffRng featselect.AxisRange
@@ -53,6 +55,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From f4b9fea1f196eb8dbab0f6516a65d75ba3153d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:16 +0000
Subject: [PATCH 30/38] fix: a damaged lasso path file was taken for an empty
 path

---
 featselect/lassoPlot.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 0776af8..9f732a3 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -30,14 +30,19 @@ func LassoLarsPathFromJSON(fname string) *LassoLarsPath {
 		panic("lassolarspathfromjson: Error when opening file!")
 	}
 	defer file.Close()
-	byteValue, _ := ioutil.ReadAll(file)
+	byteValue, err := ioutil.ReadAll(file)
+	if err != nil {
+		panic(err)
+	}
 	return LassoLarsPathFromBytes(byteValue)
 }
 
 // LassoLarsPathFromBytes loads the lasso lars path from a bytes array
 func LassoLarsPathFromBytes(data []byte) *LassoLarsPath {
 	var lassoPath LassoLarsPath
-	json.Unmarshal(data, &lassoPath)
+	if err := json.Unmarshal(data, &lassoPath); err != nil {
+		panic(err)
+	}
 	return &lassoPath
 }
 
-- 
2.43.0


From 0fd7e3e19b04310498943b313cf139c6a9445443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:07 +0000
Subject: [PATCH 31/38] fix: the tools reported success when the result could
 not be written

---
 cmd/bnb.go                                  | 21 ++++++++++++---------
 cmd/lasso.go                                | 12 +++++-------
 cmd/sasearch.go                             | 13 +++++++------
 cmdDepreciated/goselect-nestedlasso/main.go |  8 +++++---
 cmdDepreciated/goselect-plotlasso/main.go   | 18 ++++++++++++------
 5 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..10415c2 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
-	"os"
 	"sync"
 	"time"
 
@@ -63,12 +62,12 @@ func init() {
 	bnbCmd.Flags().Int("maxqueue", 10000000, "Maximum size of the queue. If this limit is reached, subtrees will be removed. If you run out of memory, this number should be lowered.")
 }
 
-func saveHighscoreList(fname string, h *featselect.Highscore) {
-	file, _ := os.Open(fname)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+func saveHighscoreList(fname string, h *featselect.Highscore) error {
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(fname, highscoreJSON, 0644)
 }
 
 func setSearchFinished(finished chan int) {
@@ -114,12 +113,16 @@ timeloop:
 		case <-c:
 			score, numChecked, log2Pruned := progress.Get()
 			fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
-			saveHighscoreList(outfile, highscore)
+			if err := saveHighscoreList(outfile, highscore); err != nil {
+				log.Print(err)
+			}
 		case <-searchFinished:
 			break timeloop
 		}
 	}
-	saveHighscoreList(outfile, highscore)
 	wg.Wait()
+	if err := saveHighscoreList(outfile, highscore); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Selection finished\n")
 }
diff --git a/cmd/lasso.go b/cmd/lasso.go
index d4eabc1..cabe523 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -19,7 +19,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
-	"os"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 	"github.com/spf13/cobra"
@@ -111,13 +111,11 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 	js, err := json.Marshal(path)
 
 	if err != nil {
-		fmt.Printf("Error: %s", err)
-		return
+		log.Fatal(err)
 	}
 
-	file, _ := os.Create(out)
-	defer file.Close()
-
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("LASSO-LARS results written to %s\n", out)
 }
diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index dd2549e..608b6f2 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -21,7 +21,6 @@ import (
 	"io/ioutil"
 	"log"
 	"math/rand"
-	"os"
 	"time"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -66,11 +65,13 @@ func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	rand.Seed(time.Now().UTC().UnixNano())
 	dset := featselect.ReadCSV(csvfile, targetCol)
 	res := featselect.SelectModelSA(dset.X, dset.Y, sweeps, featselect.Aicc)
-	file, _ := os.Open(out)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(res.Scores)
-	ioutil.WriteFile(out, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(res.Scores)
+	if err != nil {
+		log.Fatal(err)
+	}
+	if err := ioutil.WriteFile(out, highscoreJSON, 0644); err != nil {
+		log.Fatal(err)
+	}
 
 	fmt.Printf("SA highscore list written to %s", out)
 }
diff --git a/cmdDepreciated/goselect-nestedlasso/main.go b/cmdDepreciated/goselect-nestedlasso/main.go
index 46df44b..b43d47f 100644
--- a/cmdDepreciated/goselect-nestedlasso/main.go
+++ b/cmdDepreciated/goselect-nestedlasso/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"log"
 
 	"github.com/davidkleiven/goselect/featselect"
 )
@@ -16,11 +17,12 @@ func nestedLasso(csvfile string, targetCol int, out string, lambMin float64, kee
 	js, err := json.Marshal(res)
 
 	if err != nil {
-		fmt.Printf("Error %s", err)
-		return
+		log.Fatal(err)
 	}
 
-	ioutil.WriteFile(out, js, 0644)
+	if err := ioutil.WriteFile(out, js, 0644); err != nil {
+		log.Fatal(err)
+	}
 	fmt.Printf("Nested LASSO-LARS results written to %s\n", out)
 }
 
diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index fb570be..e117bbb 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -3,34 +3,40 @@ package main
 import (
 	"flag"
 	"fmt"
+	"log"
 	"math"
 
 	"github.com/davidkleiven/goselect/featselect"
+	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/vg"
 )
 
+func saveFigure(fig *plot.Plot, fname string) {
+	if err := fig.Save(4*vg.Inch, 4*vg.Inch, fname); err != nil {
+		log.Fatal(err)
+	}
+}
+
 func analyseLasso(jsonfile string, prefix string, ext string, coeffRng *featselect.AxisRange) {
 	path := featselect.LassoLarsPathFromJSON(jsonfile)
 	entrance := path.PlotEntranceTimes()
 	fname := prefix + "_entrance." + ext
-	w := 4 * vg.Inch
-	h := 4 * vg.Inch
-	entrance.Save(w, h, fname)
+	saveFigure(entrance, fname)
 	fmt.Printf("Entrance times written to %s\n", fname)
 
 	quality := path.PlotQualityScores()
 	fname = prefix + "_quality." + ext
-	quality.Save(w, h, fname)
+	saveFigure(quality, fname)
 	fmt.Printf("Quality score written to %s\n", fname)
 
 	dev := path.PlotDeviations()
 	fname = prefix + "_dev." + ext
-	dev.Save(w, h, fname)
+	saveFigure(dev, fname)
 	fmt.Printf("Dev. score written to %s\n", fname)
 
 	coeff := path.PlotPath(coeffRng)
 	fname = prefix + "_path." + ext
-	coeff.Save(w, h, fname)
+	saveFigure(coeff, fname)
 	fmt.Printf("LASSO-LARS path written to %s\n", fname)
 }
 
-- 
2.43.0


From 30ce2f4fe1c6b3b9a28eeb73d45ac8045e8d7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:23 +0000
Subject: [PATCH 32/38] fix: names of kappa targets are printed as text, not
 used as a format

---
 featselect/cohens_kappa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 2031c79..b788cd0 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -92,7 +92,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 
 		numReceives++
 		hyper := res.target.HyperParameters()
-		fmt.Printf(res.target.StringRep()+" kappa: %3.3f\n", res.kappa)
+		fmt.Printf("%s kappa: %3.3f\n", res.target.StringRep(), res.kappa)
 
 		if res.kappa > bestKappa {
 			bestKappa = res.kappa
-- 
2.43.0


From a11a816447ef3396b0e2f09575e77042288d9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:36 +0000
Subject: [PATCH 33/38] fix: comparing a highscore list reads it under its lock

---
 featselect/highscore.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index c725ffa..861c381 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -126,14 +126,32 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 }
 
 func (h *Highscore) Equal(h2 *Highscore) bool {
-	if h.MaxItems != h2.MaxItems || h.Len() != h2.Len() {
+	if h.MaxItems != h2.MaxItems {
 		return false
 	}
 
-	for e1, e2 := h.Items.Front(), h2.Items.Front(); e1 != nil; e1, e2 = e1.Next(), e2.Next() {
-		if !NodesEqual(e1.Value.(*Node), e2.Value.(*Node)) {
+	// The lists are locked one at a time, and either of them can change afterwards
+	nodes := h.nodes()
+	nodes2 := h2.nodes()
+	if len(nodes) != len(nodes2) {
+		return false
+	}
+
+	for i := range nodes {
+		if !NodesEqual(nodes[i], nodes2[i]) {
 			return false
 		}
 	}
 	return true
 }
+
+// nodes returns the nodes that are in the highscore list right now
+func (h *Highscore) nodes() []*Node {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+	nodes := make([]*Node, 0, h.Items.Len())
+	for item := h.Items.Front(); item != nil; item = item.Next() {
+		nodes = append(nodes, item.Value.(*Node))
+	}
+	return nodes
+}
-- 
2.43.0


From 9108e4c96bde01ccf2284a2f1435eb4653e578c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:22 +0000
Subject: [PATCH 34/38] fix: SelectModel rejects a target of another length

The mismatch was noticed by a worker goroutine only, whose panic ends the
whole process and can not be recovered from by the caller.
---
 featselect/optimize.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index fe4e664..7b768bd 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -81,6 +81,11 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		panic("SelectModel: The number of features has to be larger or equal to 3.")
 	}
 
+	// The workers can not report a mismatch to the caller
+	if len(y) != nrows {
+		panic("SelectModel: Inconsistent length of y.")
+	}
+
 	rootModel := params.RootModel
 	if rootModel == nil {
 		rootModel = make([]bool, ncols)
-- 
2.43.0


From 84babecd611911e0e415634c2a656e628ea5e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:25 +0000
Subject: [PATCH 35/38] fix: an unknown lasso type wrote an empty result over
 the output file

---
 cmd/lasso.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index cabe523..7401cf8 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -93,6 +93,9 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 		}
 		lambs := featselect.Logspace(lambMin, lambMax, num)
 		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
+	} else {
+		fmt.Printf("Unknown lasso type %s\n", lassoType)
+		return
 	}
 
 	featselect.Path2Unnormalized(normDset, larspath)
-- 
2.43.0


From 57c9f29804857611f68984c89f6d229beaca62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:37 +0000
Subject: [PATCH 36/38] fix: nested lasso never ended when no feature was
 removed, and panicked when none was selected

---
 featselect/nestedLasso.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index a90d248..b23571c 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -60,7 +60,8 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
-		if newNum <= 2 {
+		if newNum <= 2 || len(survivors) == 0 || len(survivors) == currentNumCoeff {
+			// No features left to remove
 			break
 		}
 
-- 
2.43.0


From b624f5682117cba8fc703617fd13b41afd351454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:17 +0000
Subject: [PATCH 37/38] fix: annealing with less than one sweep per temperature
 never ended

---
 featselect/simmulatedAnnealing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featselect/simmulatedAnnealing.go b/featselect/simmulatedAnnealing.go
index 9e8b01d..7a9b05b 100644
--- a/featselect/simmulatedAnnealing.go
+++ b/featselect/simmulatedAnnealing.go
@@ -31,6 +31,11 @@ func SelectModelSA(X mat.Matrix, y []float64, nSweeps int, cost crit) *SARes {
 	numSteps := 0
 	hasReached50 := false
 
+	// The acceptance rate is only known after a full sweep
+	if nSweeps < 1 {
+		nSweeps = 1
+	}
+
 	for {
 		index := rand.Intn(nc)
 		current[index] = !current[index]
-- 
2.43.0


From ef73d5a34483de2a10b153ab2c010b43e1fe30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:46 +0000
Subject: [PATCH 38/38] fix: criteria and deviations of a path node that
 selects nothing

---
 featselect/lassoPlot.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 9f732a3..ae6d58d 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -9,6 +9,7 @@ import (
 
 	"image/color"
 
+	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/plotter"
 	"gonum.org/v1/plot/vg"
@@ -129,6 +130,12 @@ func (p *LassoLarsPath) GetCriteria(criteria crit) []float64 {
 	values := make([]float64, len(p.LassoLarsNodes))
 
 	for i, n := range p.LassoLarsNodes {
+		if len(n.Selection) == 0 {
+			// Nothing is selected, so zero is predicted
+			values[i] = criteria(0, nData, floats.Dot(p.Dset.Y, p.Dset.Y))
+			continue
+		}
+
 		model := Selected2Model(n.Selection, nFeat)
 		design := GetDesignMatrix(model, p.Dset.X)
 		rss := Rss(design, n.Coeff, p.Dset.Y)
@@ -174,6 +181,13 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 	nData, nFeat := p.Dset.X.Dims()
 	rmseVals := make(plotter.XYs, len(p.LassoLarsNodes))
 	for i, n := range p.LassoLarsNodes {
+		if len(n.Selection) == 0 {
+			// Nothing is selected, so zero is predicted
+			rmse := floats.Norm(p.Dset.Y, 2) / math.Sqrt(float64(nData))
+			rmseVals[i] = plotter.XY{X: math.Log10(n.Lamb), Y: math.Log10(rmse)}
+			continue
+		}
+
 		model := Selected2Model(n.Selection, nFeat)
 		design := GetDesignMatrix(model, p.Dset.X)
 		rss := Rss(design, n.Coeff, p.Dset.Y)
-- 
2.43.0

