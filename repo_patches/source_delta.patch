From 12451ffb4f730454dc2cb78d5fe7d332b7c01555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 01/62] fix: exit with a non-zero status after an internal
 error

main() recovered from panics, printed them and then returned normally, so
a run that wrote no (or only half an) output reported success.
---
 gtfstidy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index ec0cce0..141cf09 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -212,6 +212,7 @@ func main() {
 	defer func() {
 		if r := recover(); r != nil {
 			fmt.Fprintln(os.Stderr, "Error:", r)
+			os.Exit(1)
 		}
 	}()
 
-- 
2.43.0


From 2622a15fca7dc1f0066708922cdec489d3832ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 02/62] fix: wait for all ID minimization routines

With all IDs minimized, 10 routines were started but only 9 were waited
for, so the feed could be written while one of them was still renaming.
The attribution routine also read the agency, route and trip maps while
other routines replaced them; it now runs after them.
---
 processors/idminimizer.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index a120d63..5be9c65 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -61,9 +61,6 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 	if minimizer.KeepPathways {
 		j = j - 1
 	}
-	if minimizer.KeepAttributions {
-		j = j - 1
-	}
 	fmt.Fprintf(os.Stdout, "Minimizing ids... ")
 	sem := make(chan empty, j)
 
@@ -121,17 +118,16 @@ func (minimizer IDMinimizer) Run(feed *gtfsparser.Feed) {
 			sem <- empty{}
 		}()
 	}
-	if !minimizer.KeepAttributions {
-		go func() {
-			minimizer.minimizeAttributionIds(feed)
-			sem <- empty{}
-		}()
-	}
 
 	for i := 0; i < j; i++ {
 		<-sem
 	}
 
+	// reads the agency, route and trip maps, which the routines above replace
+	if !minimizer.KeepAttributions {
+		minimizer.minimizeAttributionIds(feed)
+	}
+
 	fmt.Fprintf(os.Stdout, "done.\n")
 }
 
-- 
2.43.0


From 1d08887c88c5dd1d14805b53fe4ba0093b6d5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 03/62] fix: keep additional fields when minimizing IDs

Values were moved in place while iterating, so they were lost or
attributed to another entity whenever a new ID equalled an old one (as
with numeric IDs). Additional fields of frequencies.txt and
fare_rules.txt were not moved at all.
---
 processors/idminimizer.go | 109 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/processors/idminimizer.go b/processors/idminimizer.go
index 5be9c65..12b2893 100755
--- a/processors/idminimizer.go
+++ b/processors/idminimizer.go
@@ -136,26 +136,22 @@ func (minimizer IDMinimizer) minimizeTripIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Trip)
+	newIds := make(map[string]string)
 	for _, t := range feed.Trips {
 		oldId := t.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		t.Id = newId
 		idCount = idCount + 1
 		newMap[t.Id] = t
-
-		// update additional fields
-		for k := range feed.TripsAddFlds {
-			feed.TripsAddFlds[k][newId] = feed.TripsAddFlds[k][oldId]
-			delete(feed.TripsAddFlds[k], oldId)
-		}
-
-		for k := range feed.StopTimesAddFlds {
-			feed.StopTimesAddFlds[k][newId] = feed.StopTimesAddFlds[k][oldId]
-			delete(feed.StopTimesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Trips = newMap
+
+	// update additional fields
+	renameAddFlds(feed.TripsAddFlds, newIds)
+	renameAddFlds(feed.StopTimesAddFlds, newIds)
+	renameAddFlds(feed.FrequenciesAddFlds, newIds)
 }
 
 // Minimize shape IDs
@@ -163,21 +159,20 @@ func (minimizer IDMinimizer) minimizeShapeIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Shape)
+	newIds := make(map[string]string)
 	for _, s := range feed.Shapes {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.ShapesAddFlds {
-			feed.ShapesAddFlds[k][newId] = feed.ShapesAddFlds[k][oldId]
-			delete(feed.ShapesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Shapes = newMap
+
+	// update additional fields
+	renameAddFlds(feed.ShapesAddFlds, newIds)
 }
 
 // Minimize route IDs
@@ -185,21 +180,20 @@ func (minimizer IDMinimizer) minimizeRouteIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Route)
+	newIds := make(map[string]string)
 	for _, r := range feed.Routes {
 		oldId := r.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		r.Id = newId
 		idCount = idCount + 1
 		newMap[r.Id] = r
-
-		// update additional fields
-		for k := range feed.RoutesAddFlds {
-			feed.RoutesAddFlds[k][newId] = feed.RoutesAddFlds[k][oldId]
-			delete(feed.RoutesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Routes = newMap
+
+	// update additional fields
+	renameAddFlds(feed.RoutesAddFlds, newIds)
 }
 
 // Minimize service IDs
@@ -221,21 +215,20 @@ func (minimizer IDMinimizer) minimizeStopIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Stop)
+	newIds := make(map[string]string)
 	for _, s := range feed.Stops {
 		oldId := s.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		s.Id = newId
 		idCount = idCount + 1
 		newMap[s.Id] = s
-
-		// update additional fields
-		for k := range feed.StopsAddFlds {
-			feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][oldId]
-			delete(feed.StopsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Stops = newMap
+
+	// update additional fields
+	renameAddFlds(feed.StopsAddFlds, newIds)
 }
 
 // Minimize attribution IDs
@@ -281,21 +274,20 @@ func (minimizer IDMinimizer) minimizeAgencyIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Agency)
+	newIds := make(map[string]string)
 	for _, a := range feed.Agencies {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.AgenciesAddFlds {
-			feed.AgenciesAddFlds[k][newId] = feed.AgenciesAddFlds[k][oldId]
-			delete(feed.AgenciesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Agencies = newMap
+
+	// update additional fields
+	renameAddFlds(feed.AgenciesAddFlds, newIds)
 }
 
 // Minimize fare IDs
@@ -303,21 +295,21 @@ func (minimizer IDMinimizer) minimizeFareIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.FareAttribute)
+	newIds := make(map[string]string)
 	for _, a := range feed.FareAttributes {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.FareAttributesAddFlds {
-			feed.FareAttributesAddFlds[k][newId] = feed.FareAttributesAddFlds[k][oldId]
-			delete(feed.FareAttributesAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.FareAttributes = newMap
+
+	// update additional fields
+	renameAddFlds(feed.FareAttributesAddFlds, newIds)
+	renameAddFlds(feed.FareRulesAddFlds, newIds)
 }
 
 // Minimize pathway IDs
@@ -325,21 +317,20 @@ func (minimizer IDMinimizer) minimizePathwayIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Pathway)
+	newIds := make(map[string]string)
 	for _, a := range feed.Pathways {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.PathwaysAddFlds {
-			feed.PathwaysAddFlds[k][newId] = feed.PathwaysAddFlds[k][oldId]
-			delete(feed.PathwaysAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Pathways = newMap
+
+	// update additional fields
+	renameAddFlds(feed.PathwaysAddFlds, newIds)
 }
 
 // Minimize level IDs
@@ -347,19 +338,31 @@ func (minimizer IDMinimizer) minimizeLevelIds(feed *gtfsparser.Feed) {
 	var idCount int64 = 1
 
 	newMap := make(map[string]*gtfs.Level)
+	newIds := make(map[string]string)
 	for _, a := range feed.Levels {
 		oldId := a.Id
 		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
 		a.Id = newId
 		idCount = idCount + 1
 		newMap[a.Id] = a
-
-		// update additional fields
-		for k := range feed.LevelsAddFlds {
-			feed.LevelsAddFlds[k][newId] = feed.LevelsAddFlds[k][oldId]
-			delete(feed.LevelsAddFlds[k], oldId)
-		}
+		newIds[oldId] = newId
 	}
 
 	feed.Levels = newMap
+
+	// update additional fields
+	renameAddFlds(feed.LevelsAddFlds, newIds)
+}
+
+// renameAddFlds moves additional field values from their old to their new IDs
+func renameAddFlds[V any](addFlds map[string]map[string]V, newIds map[string]string) {
+	for k, vals := range addFlds {
+		newVals := make(map[string]V, len(vals))
+		for oldId, v := range vals {
+			if newId, ok := newIds[oldId]; ok {
+				newVals[newId] = v
+			}
+		}
+		addFlds[k] = newVals
+	}
 }
-- 
2.43.0


From 1e652b3d4c219e327492c379864b0937f3303b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 04/62] fix: redirect transfers of merged stops to the
 remaining stop

A transfer between two merged stops, or one for which the remaining stop
already had a transfer, kept pointing to a deleted stop. Additional fields
of transfers.txt were lost.
---
 processors/stopduplicateremover.go | 15 ++++++++++-----
 processors/util.go                 | 21 +++++++++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/processors/stopduplicateremover.go b/processors/stopduplicateremover.go
index 78c90ff..e06e62e 100755
--- a/processors/stopduplicateremover.go
+++ b/processors/stopduplicateremover.go
@@ -199,6 +199,11 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 		}
 
 		for _, tk := range transfers[s] {
+			if _, ok := feed.Transfers[tk]; !ok {
+				// already moved to another key
+				continue
+			}
+
 			// update the  key
 			tk_new := tk
 
@@ -211,12 +216,12 @@ func (sdr StopDuplicateRemover) combineStops(feed *gtfsparser.Feed, stops []*gtf
 				tk_new.To_stop = ref
 			}
 
-			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = feed.Transfers[tk]
-				delete(feed.Transfers, tk)
+			moveTransfer(feed, tk, tk_new)
 
-				// add new transfer to transfer refs
-				transfers[ref] = append(transfers[ref], tk_new)
+			// add new transfer to transfer refs
+			transfers[tk_new.From_stop] = append(transfers[tk_new.From_stop], tk_new)
+			if tk_new.From_stop != tk_new.To_stop {
+				transfers[tk_new.To_stop] = append(transfers[tk_new.To_stop], tk_new)
 			}
 		}
 
diff --git a/processors/util.go b/processors/util.go
index f2899d8..d9bc0e2 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -7,6 +7,7 @@
 package processors
 
 import (
+	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"math"
 )
@@ -308,3 +309,23 @@ func boolsToBytes(t []bool) []byte {
 	}
 	return b
 }
+
+// moveTransfer moves a transfer and its additional fields to a new key. If
+// there already is a transfer for the new key, the existing transfer is kept.
+func moveTransfer(feed *gtfsparser.Feed, from gtfs.TransferKey, to gtfs.TransferKey) {
+	if from == to {
+		return
+	}
+
+	if _, ok := feed.Transfers[to]; !ok {
+		feed.Transfers[to] = feed.Transfers[from]
+
+		for k := range feed.TransfersAddFlds {
+			if v, ok := feed.TransfersAddFlds[k][from]; ok {
+				feed.TransfersAddFlds[k][to] = v
+			}
+		}
+	}
+
+	feed.DeleteTransfer(from)
+}
-- 
2.43.0


From e5167cc03ce45051fa1e02694081571bf2b4217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 05/62] fix: redirect transfers of stations replaced while
 reclustering

If there already was a transfer for the station that was kept, the
transfer continued to point to the deleted station.
---
 processors/stopreclusterer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e4fcef..614d028 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -253,7 +253,7 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for tk, tv := range feed.Transfers {
+		for tk := range feed.Transfers {
 			tk_new := tk
 			if tk.From_stop == st {
 				tk_new.From_stop = parent
@@ -262,10 +262,7 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 				tk_new.To_stop = parent
 			}
 
-			if _, ok := feed.Transfers[tk_new]; !ok {
-				feed.Transfers[tk_new] = tv
-				delete(feed.Transfers, tk)
-			}
+			moveTransfer(feed, tk, tk_new)
 		}
 
 		for _, p := range feed.Pathways {
-- 
2.43.0


From 22a9669a7e28c82f4a3ca379b17a1736206ed83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 06/62] fix: keep transfers of merged routes

---
 processors/routeduplicateremover.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/processors/routeduplicateremover.go b/processors/routeduplicateremover.go
index 634690e..b4922a1 100755
--- a/processors/routeduplicateremover.go
+++ b/processors/routeduplicateremover.go
@@ -55,9 +55,6 @@ func (rdr RouteDuplicateRemover) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
-	// delete transfers
-	feed.CleanTransfers()
-
 	fmt.Fprintf(os.Stdout, "done. (-%d routes [-%.2f%%])\n",
 		(bef - len(feed.Routes)),
 		100.0*float64(bef-len(feed.Routes))/(float64(bef)+0.001))
@@ -187,6 +184,18 @@ func (rdr RouteDuplicateRemover) combineRoutes(feed *gtfsparser.Feed, routes []*
 			}
 		}
 
+		for tk := range feed.Transfers {
+			tk_new := tk
+			if tk.From_route == r {
+				tk_new.From_route = ref
+			}
+			if tk.To_route == r {
+				tk_new.To_route = ref
+			}
+
+			moveTransfer(feed, tk, tk_new)
+		}
+
 		for _, attr := range r.Attributions {
 			ref.Attributions = append(ref.Attributions, attr)
 		}
-- 
2.43.0


From fd94d993025e7a955cfa20d0a7a95a478d88aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 07/62] fix: delete transfers of trips replaced by
 --non-overlapping-services

The output contained transfers between trips that do not exist in it.
---
 processors/servicenonoverlapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 7d6c19a..960144e 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -153,5 +153,8 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	// trip-specific transfers of the original trips
+	feed.CleanTransfers()
+
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
-- 
2.43.0


From 0f1cd6b03c3511e56abade23f450106ac348a852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 08/62] fix: unique service IDs for --non-overlapping-services

Week numbers do not contain the year, so in feeds covering more than a
year two day types could get the same service ID. One of them (and its
trips) was overwritten.
---
 processors/servicenonoverlapper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 960144e..a75bae6 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -134,6 +134,12 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				}
 			}
 
+			// the same weeks may appear in different years
+			baseId := id
+			for n := 2; feed.Services[id] != nil; n++ {
+				id = baseId + " #" + strconv.Itoa(n)
+			}
+
 			exceptions := make(map[gtfs.Date]bool)
 			for _, d := range t.Dates {
 				exceptions[d] = true
-- 
2.43.0


From 39701652294b585b4f06b0bad9212bcda08e9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 09/62] fix: keep all properties of trips split by
 --remove-cal-dates

Trips created for additional service blocks had no frequencies,
attributions or additional fields, so frequency-based trips lost most of
their departures.
---
 processors/servicecaldatesremover.go | 15 ++++-----------
 processors/util.go                   | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index c1ff2c2..bbc2530 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -59,21 +59,14 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 
 			for i := 1; i < len(val); i++ {
 				newTrip := new(gtfs.Trip)
-
-				newTrip.Service = val[i]
-				newTrip.Bikes_allowed = trip.Bikes_allowed
-				newTrip.Block_id = trip.Block_id
-				newTrip.Direction_id = trip.Direction_id
-				newTrip.Headsign = trip.Headsign
+				*newTrip = *trip
 
 				newTrip.Id = sm.freeTripId(feed, trip.Id)
-
-				newTrip.Route = trip.Route
-				newTrip.Shape = trip.Shape
-				newTrip.Short_name = trip.Short_name
-				newTrip.Wheelchair_accessible = trip.Wheelchair_accessible
+				newTrip.Service = val[i]
 				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
 
+				copyTripAddFlds(feed, trip.Id, newTrip.Id)
+
 				newTrips = append(newTrips, newTrip)
 			}
 		}
diff --git a/processors/util.go b/processors/util.go
index d9bc0e2..06e591f 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -329,3 +329,24 @@ func moveTransfer(feed *gtfsparser.Feed, from gtfs.TransferKey, to gtfs.Transfer
 
 	feed.DeleteTransfer(from)
 }
+
+// copyTripAddFlds copies the additional fields of a trip to another trip
+func copyTripAddFlds(feed *gtfsparser.Feed, from string, to string) {
+	for k := range feed.TripsAddFlds {
+		if v, ok := feed.TripsAddFlds[k][from]; ok {
+			feed.TripsAddFlds[k][to] = v
+		}
+	}
+
+	for k := range feed.StopTimesAddFlds {
+		if v, ok := feed.StopTimesAddFlds[k][from]; ok {
+			feed.StopTimesAddFlds[k][to] = v
+		}
+	}
+
+	for k := range feed.FrequenciesAddFlds {
+		if v, ok := feed.FrequenciesAddFlds[k][from]; ok {
+			feed.FrequenciesAddFlds[k][to] = v
+		}
+	}
+}
-- 
2.43.0


From a2257f62cbaff78f57333aea88a4198116490554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 10/62] fix: avoid ID collisions in --remove-cal-dates

Free IDs were only checked against IDs already in the feed, not against
those handed out before. Service "1" with suffix 12 and service "11" with
suffix 2 both became "112", and one of them was lost. Same for trips.
---
 processors/servicecaldatesremover.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index bbc2530..e0411a1 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -20,6 +20,8 @@ type ServiceCalDatesRem struct {
 	ServiceMinimizer
 	tidc uint
 	sidc uint
+	tids map[string]bool
+	sids map[string]bool
 }
 
 // Run this ServiceMinimizer on some feed
@@ -27,6 +29,9 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 	fmt.Fprintf(os.Stdout, "Removing calendar_dates.txt entries... ")
 	calBefore, datesBefore := sm.countServices(feed)
 
+	sm.tids = make(map[string]bool)
+	sm.sids = make(map[string]bool)
+
 	newServices := make(map[*gtfs.Service][]*gtfs.Service, 0)
 
 	for _, s := range feed.Services {
@@ -208,7 +213,8 @@ func (sm *ServiceCalDatesRem) freeTripId(feed *gtfsparser.Feed, prefix string) s
 	for sm.tidc < ^uint(0) {
 		sm.tidc += 1
 		tid := prefix + fmt.Sprint(sm.tidc)
-		if _, ok := feed.Trips[tid]; !ok {
+		if _, ok := feed.Trips[tid]; !ok && !sm.tids[tid] {
+			sm.tids[tid] = true
 			return tid
 		}
 	}
@@ -220,7 +226,8 @@ func (sm *ServiceCalDatesRem) freeServiceId(feed *gtfsparser.Feed, prefix string
 	for sm.sidc < ^uint(0) {
 		sm.sidc += 1
 		sid := prefix + fmt.Sprint(sm.sidc)
-		if _, ok := feed.Services[sid]; !ok {
+		if _, ok := feed.Services[sid]; !ok && !sm.sids[sid] {
+			sm.sids[sid] = true
 			return sid
 		}
 	}
-- 
2.43.0


From bfa49a96a766b7fbc3a0a7aaedfb040b5a45d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 11/62] fix: don't treat transfers between served stations as
 orphans

Only stops used directly in stop_times.txt counted as referenced, so -O
deleted all transfers defined on parent stations.
---
 processors/orphanminimizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 997f838..b73263e 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -74,6 +74,11 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		referenced_routes[t.Route] = empty{}
 		for _, st := range t.StopTimes {
 			referenced[st.Stop()] = empty{}
+
+			// transfers between stations apply to all of their stops
+			if st.Stop().Parent_station != nil {
+				referenced[st.Stop().Parent_station] = empty{}
+			}
 		}
 	}
 
-- 
2.43.0


From ab1e2210ea1de2bd1be2334bafc5e166e65fbd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 12/62] fix: also delete orphaned stations of deleted boarding
 areas

---
 processors/orphanminimizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index b73263e..990c1d2 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -35,7 +35,9 @@ func (or OrphanRemover) Run(feed *gtfsparser.Feed) {
 
 	or.removeStopOrphans(feed)
 
-	// do this 2 times, because stop deletion can create new stop orphans (parent_station)
+	// do this 3 times, because stop deletion can create new stop orphans (parent_station),
+	// and a boarding area is 2 levels below its station
+	or.removeStopOrphans(feed)
 	or.removeStopOrphans(feed)
 
 	or.removeShapeOrphans(feed)
-- 
2.43.0


From 26ae426803b374dea62e29c10a02fa86af813b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 13/62] fix: start times of frequencies are departure times

--minimize-frequencies used the arrival time at the first stop as the
start time of frequencies, which shifted all departures of trips that wait
at their first stop.
---
 processors/frequencyminizer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 4dcfbf0..16e1cce 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -402,7 +402,7 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Arrival_time(), false, nil})
+						ret.trips = append(ret.trips, tripWrapper{t, t.StopTimes[0].Departure_time(), false, nil})
 						ret.coveredTrips[t] = empty{}
 						mutex.Unlock()
 					} else {
@@ -450,16 +450,27 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 }
 
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
-// start with time
+// depart from the first stop at time
 func (m FrequencyMinimizer) remeasureStopTimes(t *gtfs.Trip, time gtfs.Time) {
 	diff := 0
 	curArrDepDiff := 0
+	start := time.SecondsSinceMidnight()
+
+	if len(t.StopTimes) > 0 {
+		start -= t.StopTimes[0].Departure_time().SecondsSinceMidnight() - t.StopTimes[0].Arrival_time().SecondsSinceMidnight()
+	}
+
+	if start < 0 {
+		// only possible for frequency based trips, where only the relative times count
+		start = 0
+	}
+
 	for i := 0; i < len(t.StopTimes); i++ {
 		curArrDepDiff = t.StopTimes[i].Departure_time().SecondsSinceMidnight() - t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
 		oldArrT := t.StopTimes[i].Arrival_time().SecondsSinceMidnight()
 
-		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff))
-		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(time.SecondsSinceMidnight() + diff + curArrDepDiff))
+		t.StopTimes[i].SetArrival_time(m.getGtfsTimeFromSec(start + diff))
+		t.StopTimes[i].SetDeparture_time(m.getGtfsTimeFromSec(start + diff + curArrDepDiff))
 
 		if i < len(t.StopTimes)-1 {
 			diff += t.StopTimes[i+1].Arrival_time().SecondsSinceMidnight() - oldArrT
-- 
2.43.0


From 927c3d440e211a77852173a22eba3f9a63d51f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 14/62] fix: compare waiting times when searching for equal
 trips

Arrival and departure offsets were only compared separately. Trips with
and without a constant waiting time at all stops were treated as equal.
---
 processors/frequencyminizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 16e1cce..b1546fe 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -509,7 +509,11 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
 		}
-		if i != 0 {
+		if i == 0 {
+			if a.StopTimes[i].Departure_time().SecondsSinceMidnight()-a.StopTimes[i].Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Departure_time().SecondsSinceMidnight()-b.StopTimes[i].Arrival_time().SecondsSinceMidnight() {
+				return false
+			}
+		} else {
 			if a.StopTimes[i].Arrival_time().SecondsSinceMidnight()-aPrev.Arrival_time().SecondsSinceMidnight() != b.StopTimes[i].Arrival_time().SecondsSinceMidnight()-bPrev.Arrival_time().SecondsSinceMidnight() {
 				return false
 			}
-- 
2.43.0


From ea285842d0f96cf7971dd4316d63c72bc053fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 15/62] fix: keep single departures of frequencies as
 frequencies

A departure of a frequency with exact_times=0 that could not be packed
with others was turned into an exactly scheduled trip.
---
 processors/frequencyminizer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index b1546fe..434dbe8 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -173,6 +173,15 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 					* we can assume that progressions with 1 match are only
 					* contained in single-progression-packs
 					 */
+					if f := eqs.trips[p.matches[0]].sourceFreq; f != nil {
+						// keep single departures of frequencies as they are
+						a := new(gtfs.Frequency)
+						a.Exact_times = f.Exact_times
+						a.Start_time = smallestStartTime
+						a.End_time = m.getGtfsTimeFromSec(smallestStartTime.SecondsSinceMidnight() + f.Headway_secs)
+						a.Headway_secs = f.Headway_secs
+						*curTrip.Frequencies = append(*curTrip.Frequencies, a)
+					}
 					continue
 				}
 				if smallestStartTime.SecondsSinceMidnight() > eqs.trips[p.matches[0]].t.SecondsSinceMidnight() {
-- 
2.43.0


From 5dfd6c30453666462c7173b5afdc33e513dd3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 16/62] fix: use each trip's own sequence numbers to compare
 additional fields

---
 processors/frequencyminizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 434dbe8..903975d 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -506,7 +506,7 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		addFldsEq := true
 
 		for _, v := range feed.StopTimesAddFlds {
-			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][a.StopTimes[i].Sequence()] {
+			if v[a.Id][a.StopTimes[i].Sequence()] != v[b.Id][b.StopTimes[i].Sequence()] {
 				addFldsEq = false
 				break
 			}
-- 
2.43.0


From c2039b3318c7dbfbd15e491d60e016aada7c331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:07 +0000
Subject: [PATCH 17/62] fix: don't merge trips with different attributions into
 frequencies

The attributions of all but one of the trips were lost.
---
 processors/frequencyminizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index 903975d..c41456e 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -455,7 +455,8 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 	return addFldsEq && a.Route == b.Route && a.Service == b.Service && a.Headsign == b.Headsign &&
 		a.Short_name == b.Short_name && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
 		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&
-		a.Bikes_allowed == b.Bikes_allowed && m.hasSameRelStopTimes(a, b, feed)
+		a.Bikes_allowed == b.Bikes_allowed && a.Attributions == b.Attributions &&
+		m.hasSameRelStopTimes(a, b, feed)
 }
 
 // Remeasure a trips stop times by taking their relative values and changing the sequence to
-- 
2.43.0


From acb279be043c6f49347c331551285d9cfd4a308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 18/62] fix: restore kept IDs exactly once, in a fixed order

---
 gtfstidy.go | 69 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 141cf09..95165fa 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -18,6 +18,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -99,6 +100,22 @@ func parseCoords(s string) ([][2]float64, error) {
 	return ret, nil
 }
 
+// sortedIds returns the current IDs in m. Shorter IDs come first, so that an ID
+// which is a prefixed version of another one is only restored after it.
+func sortedIds[V any](m map[string]V) []string {
+	ids := make([]string, 0, len(m))
+	for id := range m {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool {
+		if len(ids[i]) != len(ids[j]) {
+			return len(ids[i]) < len(ids[j])
+		}
+		return ids[i] < ids[j]
+	})
+	return ids
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -679,7 +696,8 @@ func main() {
 
 		// restore stop IDs, if requested
 		if *keepStationIds && len(prefixes) > 0 {
-			for id, s := range feed.Stops {
+			for _, id := range sortedIds(feed.Stops) {
+				s := feed.Stops[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -712,28 +730,34 @@ func main() {
 				}
 			}
 
-			for _, s := range feed.Trips {
+			for _, id := range sortedIds(existingBlockIds) {
 				for prefix := range prefixes {
-					if s.Block_id != nil && strings.HasPrefix(*s.Block_id, prefix) {
-						oldId := strings.TrimPrefix(*s.Block_id, prefix)
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
 						if _, ok := existingBlockIds[oldId]; !ok {
-							oldToNewBlockIds[*s.Block_id] = oldId
-							*s.Block_id = oldId
-
-							existingBlockIds[*s.Block_id] = true
-
-						} else if newId, ok := oldToNewBlockIds[*s.Block_id]; ok && newId == oldId {
-							*s.Block_id = oldId
+							oldToNewBlockIds[id] = oldId
+							existingBlockIds[oldId] = true
+							delete(existingBlockIds, id)
 						}
 						break
 					}
 				}
 			}
+
+			for _, t := range feed.Trips {
+				if t.Block_id == nil {
+					continue
+				}
+				if newId, ok := oldToNewBlockIds[*t.Block_id]; ok {
+					t.Block_id = &newId
+				}
+			}
 		}
 
 		// restore agency IDs, if requested
 		if *keepAgencyIds && len(prefixes) > 0 {
-			for id, s := range feed.Agencies {
+			for _, id := range sortedIds(feed.Agencies) {
+				s := feed.Agencies[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -757,7 +781,8 @@ func main() {
 
 		// restore fare attribute IDs, if requested
 		if *keepFareIds && len(prefixes) > 0 {
-			for id, s := range feed.FareAttributes {
+			for _, id := range sortedIds(feed.FareAttributes) {
+				s := feed.FareAttributes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -786,7 +811,8 @@ func main() {
 
 		// restore service IDs, if requested
 		if *keepServiceIds && len(prefixes) > 0 {
-			for id, s := range feed.Services {
+			for _, id := range sortedIds(feed.Services) {
+				s := feed.Services[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -804,7 +830,8 @@ func main() {
 
 		// restore route IDs, if requested
 		if *keepRouteIds && len(prefixes) > 0 {
-			for id, s := range feed.Routes {
+			for _, id := range sortedIds(feed.Routes) {
+				s := feed.Routes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -828,7 +855,8 @@ func main() {
 
 		// restore shape IDs, if requested
 		if *keepShapeIds && len(prefixes) > 0 {
-			for id, s := range feed.Shapes {
+			for _, id := range sortedIds(feed.Shapes) {
+				s := feed.Shapes[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -852,7 +880,8 @@ func main() {
 
 		// restore trip IDs, if requested
 		if *keepTripIds && len(prefixes) > 0 {
-			for id, s := range feed.Trips {
+			for _, id := range sortedIds(feed.Trips) {
+				s := feed.Trips[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -886,7 +915,8 @@ func main() {
 
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
-			for id, s := range feed.Levels {
+			for _, id := range sortedIds(feed.Levels) {
+				s := feed.Levels[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
@@ -910,7 +940,8 @@ func main() {
 
 		// restore pathway IDs, if requested
 		if *keepPathwayIds && len(prefixes) > 0 {
-			for id, s := range feed.Pathways {
+			for _, id := range sortedIds(feed.Pathways) {
+				s := feed.Pathways[id]
 				for prefix := range prefixes {
 					if strings.HasPrefix(id, prefix) {
 						oldId := strings.TrimPrefix(id, prefix)
-- 
2.43.0


From c67cafaf7df05db49ccc1f2f6fca237538a078ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 19/62] fix: delete the prefixed ID of restored pathways

---
 gtfstidy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 95165fa..7953238 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -955,7 +955,8 @@ func main() {
 								delete(feed.PathwaysAddFlds[k], id)
 							}
 
-							feed.DeletePathway(id)
+							// DeletePathway removes a fare attribute instead
+							delete(feed.Pathways, id)
 						}
 						break
 					}
-- 
2.43.0


From 7db94350892937ef250b8a1f72adb44c4be9f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 20/62] fix: ignore trips already merged into frequencies

---
 processors/frequencyminizer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index c41456e..abaa181 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -85,7 +85,7 @@ func (m FrequencyMinimizer) Run(feed *gtfsparser.Feed) {
 		}
 
 		// trips time-independent equal to the current trip
-		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], feed)
+		eqs := m.getTimeIndependentEquivalentTrips(t, tripsSl[t.Route][t.Service], processed, feed)
 		for _, t := range eqs.trips {
 			processed[t.Trip] = empty{}
 		}
@@ -394,8 +394,9 @@ func (m FrequencyMinimizer) getPossibleFreqs(tws tripWrappers) map[int]empty {
 	return ret
 }
 
-// Get trips that are equal to trip without considering the absolute time values
-func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, feed *gtfsparser.Feed) tripWrappers {
+// Get trips that are equal to trip without considering the absolute time values. Trips that
+// have already been processed may have been deleted and are ignored.
+func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, trips []*gtfs.Trip, processed map[*gtfs.Trip]empty, feed *gtfsparser.Feed) tripWrappers {
 	ret := tripWrappers{make([]tripWrapper, 0), make(map[*gtfs.Trip]empty, 0)}
 
 	chunks := MaxParallelism()
@@ -408,6 +409,10 @@ func (m FrequencyMinimizer) getTimeIndependentEquivalentTrips(trip *gtfs.Trip, t
 			for i := workload * j; i < workload*(j+1) && i < len(trips); i++ {
 				t := trips[i]
 
+				if _, ok := processed[t]; ok {
+					continue
+				}
+
 				if t.Id == trip.Id || m.isTimeIndependentEqual(t, trip, feed) {
 					if t.Frequencies == nil || len(*t.Frequencies) == 0 {
 						mutex.Lock()
-- 
2.43.0


From 1dad79bb0d6b54baa9d717a77d1afcb7723bb515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 21/62] fix: don't duplicate the point of single-point shapes
 when minimizing

---
 processors/shapeminimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 2e342c0..997a67e 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -71,6 +71,10 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 
 // Minimize a single shape using the Douglas-Peucker algorithm
 func (sm *ShapeMinimizer) minimizeShape(points gtfs.ShapePoints, e float64) gtfs.ShapePoints {
+	if len(points) < 3 {
+		return points
+	}
+
 	var maxD float64
 	var maxI int
 
-- 
2.43.0


From d079ef6b5fe2c75c28aa6258fc81eefb8f4fa84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 22/62] fix: keep measures increasing when the start of a shape
 has none

---
 processors/shaperemeasurer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/shaperemeasurer.go b/processors/shaperemeasurer.go
index dd1508f..d293c02 100755
--- a/processors/shaperemeasurer.go
+++ b/processors/shaperemeasurer.go
@@ -91,7 +91,18 @@ func (s ShapeRemeasurer) remeasureUnknown(shape *gtfs.Shape, avgMeasure float64)
 	for i := 0; i <= len(shape.Points); i++ {
 		if i == len(shape.Points) || shape.Points[i].HasDistanceTraveled() {
 			if lastUMIndex > -1 {
-				s.remeasureBetween(lastUMIndex, i, avgMeasure, lastM, shape)
+				mPUnit := avgMeasure
+				if lastUMIndex == 0 && i < len(shape.Points) {
+					// a hole at the start must not exceed the first known measurement
+					d := 0.0
+					for j := 1; j <= i; j++ {
+						d = d + distP(&shape.Points[j-1], &shape.Points[j])
+					}
+					if d*mPUnit > float64(shape.Points[i].Dist_traveled) {
+						mPUnit = float64(shape.Points[i].Dist_traveled) / d
+					}
+				}
+				s.remeasureBetween(lastUMIndex, i, mPUnit, lastM, shape)
 				lastUMIndex = -1
 			}
 			if i < len(shape.Points) {
-- 
2.43.0


From a3dd481ae86505b88fc55a596f5ed75cdec9d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 23/62] fix: index whole shapes when searching for duplicates

---
 processors/shapeidx.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/processors/shapeidx.go b/processors/shapeidx.go
index 19c7843..6ed2b59 100755
--- a/processors/shapeidx.go
+++ b/processors/shapeidx.go
@@ -37,13 +37,15 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 			x, y := p[0], p[1]
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -60,8 +62,8 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[*gtfs.Shape]bool, idx.xWidth)
@@ -81,7 +83,7 @@ func NewShapeIdx(shapes []*gtfs.Shape, mercs map[*gtfs.Shape][][]float64, cellWi
 func (gi *ShapeIdx) Add(origShp *gtfs.Shape, shp [][]float64) {
 	for i := 1; i < len(shp); i++ {
 		ax, ay := shp[i-1][0], shp[i-1][1]
-		bx, by := shp[i][0], shp[0][1]
+		bx, by := shp[i][0], shp[i][1]
 		llx := math.Min(ax, bx)
 		lly := math.Min(ay, by)
 		urx := math.Max(ax, bx)
-- 
2.43.0


From e112f4e861ae20fad19816c6faef33ed5a028cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 24/62] fix: don't let rounding move stop times beyond their
 shape segment

---
 processors/stoptimeremeasurer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/processors/stoptimeremeasurer.go b/processors/stoptimeremeasurer.go
index 1c7e45b..ad55bdc 100644
--- a/processors/stoptimeremeasurer.go
+++ b/processors/stoptimeremeasurer.go
@@ -364,7 +364,9 @@ func (s *StopTimeRemeasurer) remeasure(trip *gtfs.Trip) bool {
 
 		c := cands[i][chosen]
 
-		newDist := trip.Shape.Points[c.Seg].Dist_traveled + float32(float64(trip.Shape.Points[c.Seg + 1].Dist_traveled - trip.Shape.Points[c.Seg].Dist_traveled) * c.Progr)
+		segStart := float64(trip.Shape.Points[c.Seg].Dist_traveled)
+		segEnd := float64(trip.Shape.Points[c.Seg + 1].Dist_traveled)
+		newDist := float32(segStart + (segEnd - segStart) * c.Progr)
 		trip.StopTimes[i].SetShape_dist_traveled(newDist)
 
 		// if i != len(trip.StopTimes) -1 && trip.StopTimes[i].Shape_dist_traveled() > trip.StopTimes[i+1].Shape_dist_traveled() {
-- 
2.43.0


From b1aa8e7d9ee6fcdb0c63cb479304b11d333c71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 25/62] fix: keep additional fields of shape points when
 minimizing shapes

---
 processors/shapeminimizer.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/processors/shapeminimizer.go b/processors/shapeminimizer.go
index 997a67e..c267326 100755
--- a/processors/shapeminimizer.go
+++ b/processors/shapeminimizer.go
@@ -42,9 +42,6 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 				bef := len(s.Points)
 				chunknum[a] += len(s.Points)
 				s.Points = sm.minimizeShape(s.Points, sm.Epsilon)
-				for i := 0; i < len(s.Points); i++ {
-					s.Points[i].Sequence = uint32(i)
-				}
 				chunkgain[a] += bef - len(s.Points)
 			}
 			sem <- empty{}
@@ -56,6 +53,25 @@ func (sm ShapeMinimizer) Run(feed *gtfsparser.Feed) {
 		<-sem
 	}
 
+	// renumber the points, additional fields are stored by sequence number
+	for _, s := range feed.Shapes {
+		for _, flds := range feed.ShapesAddFlds {
+			if len(flds[s.Id]) == 0 {
+				continue
+			}
+			newFlds := make(map[int]string)
+			for i, p := range s.Points {
+				if v, ok := flds[s.Id][int(p.Sequence)]; ok {
+					newFlds[i] = v
+				}
+			}
+			flds[s.Id] = newFlds
+		}
+		for i := 0; i < len(s.Points); i++ {
+			s.Points[i].Sequence = uint32(i)
+		}
+	}
+
 	n := 0
 	orign := 0
 	for _, g := range chunkgain {
-- 
2.43.0


From d0cca8cd87788b3ddfa6a52a23f2d835c99719ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 26/62] fix: don't crash on equal trips without any service day

---
 processors/tripduplicateremover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/tripduplicateremover.go b/processors/tripduplicateremover.go
index a62ecaa..5a36f05 100755
--- a/processors/tripduplicateremover.go
+++ b/processors/tripduplicateremover.go
@@ -465,7 +465,7 @@ func (m *TripDuplicateRemover) tripCalEq(a *gtfs.Trip, b *gtfs.Trip) bool {
 		return false
 	}
 
-	if aDList[len(aDList)-1] != bDList[len(bDList)-1] {
+	if len(aDList) > 0 && aDList[len(aDList)-1] != bDList[len(bDList)-1] {
 		return false
 	}
 
-- 
2.43.0


From a7bd6da3331ec1db823f579c92cc748cf7404392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 27/62] fix: don't write the ID of an attribution for each copy
 of its trip

---
 processors/servicecaldatesremover.go |  1 +
 processors/servicenonoverlapper.go   |  7 +++++++
 processors/util.go                   | 26 ++++++++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/processors/servicecaldatesremover.go b/processors/servicecaldatesremover.go
index e0411a1..52a0b59 100755
--- a/processors/servicecaldatesremover.go
+++ b/processors/servicecaldatesremover.go
@@ -69,6 +69,7 @@ func (sm ServiceCalDatesRem) Run(feed *gtfsparser.Feed) {
 				newTrip.Id = sm.freeTripId(feed, trip.Id)
 				newTrip.Service = val[i]
 				newTrip.StopTimes = append([]gtfs.StopTime(nil), trip.StopTimes...)
+				newTrip.Attributions = copyAttributions(feed, trip.Attributions)
 
 				copyTripAddFlds(feed, trip.Id, newTrip.Id)
 
diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index a75bae6..4ad3460 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -94,6 +94,9 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 	feed.TripsAddFlds = make(map[string]map[string]string)
 	feed.StopTimesAddFlds = make(map[string]map[string]map[int]string)
 
+	// trips which have been copied already
+	copied := make(map[*gtfs.Trip]bool)
+
 	// write services
 	for wd, _ := range days {
 		for _, t := range day_types[wd] {
@@ -154,6 +157,10 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 				newt.Id = newt.Id + ":" + id
 				newt.Service = feed.Services[id]
 				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)
+				if copied[trip] {
+					newt.Attributions = copyAttributions(feed, trip.Attributions)
+				}
+				copied[trip] = true
 				feed.Trips[newt.Id] = &newt
 			}
 		}
diff --git a/processors/util.go b/processors/util.go
index 06e591f..5e5c86e 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -350,3 +350,29 @@ func copyTripAddFlds(feed *gtfsparser.Feed, from string, to string) {
 		}
 	}
 }
+
+// copyAttributions copies the attributions of a trip for a copy of this trip. As
+// attribution IDs are unique and nothing refers to them, the copies have none.
+func copyAttributions(feed *gtfsparser.Feed, attrs *[]*gtfs.Attribution) *[]*gtfs.Attribution {
+	if attrs == nil {
+		return nil
+	}
+
+	ret := make([]*gtfs.Attribution, 0, len(*attrs))
+
+	for _, attr := range *attrs {
+		newAttr := new(gtfs.Attribution)
+		*newAttr = *attr
+		newAttr.Id = ""
+
+		for k := range feed.AttributionsAddFlds {
+			if v, ok := feed.AttributionsAddFlds[k][attr]; ok {
+				feed.AttributionsAddFlds[k][newAttr] = v
+			}
+		}
+
+		ret = append(ret, newAttr)
+	}
+
+	return &ret
+}
-- 
2.43.0


From 1a23c3b1026956e19a0e0229fb4fa6f360e4b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 28/62] fix: delete the pathways of stops outside the filter
 area

---
 processors/completegeotripsfilter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 2409b0d..3c40a17 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -76,7 +76,11 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 
 	for _, s := range toDel {
 		for _, p := range pathways[s] {
-			feed.DeletePathway(p.Id)
+			// feed.DeletePathway would delete a fare attribute instead
+			delete(feed.Pathways, p.Id)
+			for k := range feed.PathwaysAddFlds {
+				delete(feed.PathwaysAddFlds[k], p.Id)
+			}
 		}
 
 		feed.DeleteStop(s.Id)
-- 
2.43.0


From 01e6e560db0e98b2f744822de47a1989369f679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 29/62] fix: keep the station of boarding areas inside the
 filter area

---
 processors/completegeotripsfilter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/processors/completegeotripsfilter.go b/processors/completegeotripsfilter.go
index 3c40a17..e35a28b 100755
--- a/processors/completegeotripsfilter.go
+++ b/processors/completegeotripsfilter.go
@@ -26,9 +26,9 @@ func (f CompleteTripsGeoFilter) Run(feed *gtfsparser.Feed) {
 		for _, poly := range f.Polygons {
 			if poly.PolyContains(float64(s.Lon), float64(s.Lat)) {
 				filterstops[s] = true
-				usedstops[s] = true
-				if s.Parent_station != nil {
-					usedstops[s.Parent_station] = true
+				// boarding areas have a platform as parent
+				for u := s; u != nil; u = u.Parent_station {
+					usedstops[u] = true
 				}
 				break
 			}
-- 
2.43.0


From f9679b2ea36b700f526a7fae25ab6ef939f0888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 30/62] fix: don't drop everything if there is no area to
 complete trips for

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 7953238..420cd44 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -554,7 +554,7 @@ func main() {
 			minzers = append(minzers, processors.TooFastTripRemover{})
 		}
 
-		if *polygonFilterCompleteTrips {
+		if *polygonFilterCompleteTrips && len(polys) > 0 {
 			minzers = append(minzers, processors.CompleteTripsGeoFilter{Polygons: polys})
 		}
 
-- 
2.43.0


From bfe0623ae4055c1c9648721cd4d44a2b1f7a664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 31/62] fix: don't crash on reclustering feeds without stops

---
 processors/stopreclusterer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 614d028..3e3efcd 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -127,6 +127,11 @@ func (m StopReclusterer) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
+	if len(clusters) == 0 {
+		fmt.Fprintf(os.Stdout, "done. (-0 clusters) [-0.00%%]\n")
+		return
+	}
+
 	// geographical grid for faster merge cluster candidate retrieval
 	m.idx = NewStopClusterIdx(clusters, m.GridCellSize, m.GridCellSize)
 
-- 
2.43.0


From 9ea9c757b7e5d243086e10ee7f647e2d8aa67b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 32/62] fix: keep stations without children while reclustering

---
 processors/stopreclusterer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 3e3efcd..0593d7a 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -239,8 +239,10 @@ func (m *StopReclusterer) writeCluster(cl *StopCluster, feed *gtfsparser.Feed) {
 			for _, c := range cl.Childs {
 				cursimi += m.stopSimi(p, c)
 			}
-			cursimi = cursimi / float32(len(cl.Childs))
-			if cursimi >= bestsimi {
+			if len(cl.Childs) > 0 {
+				cursimi = cursimi / float32(len(cl.Childs))
+			}
+			if parent == nil || cursimi >= bestsimi {
 				parent = p
 				bestsimi = cursimi
 			}
-- 
2.43.0


From 50ef7e1d774682f00843e3dd3f87f50a71c84053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 33/62] fix: delete services and transfers left behind by
 filters

---
 gtfstidy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 420cd44..74e89b1 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -548,6 +548,18 @@ func main() {
 		fmt.Fprintln(os.Stdout, "\nYou may want to try running gtfstidy with --fix for error fixing / skipping. See --help for details.")
 		os.Exit(1)
 	} else {
+		if !startDate.IsEmpty() || !endDate.IsEmpty() {
+			// the date filter of the parser keeps services without any service day
+			for id, s := range feed.Services {
+				if s.GetFirstActiveDate().IsEmpty() {
+					feed.DeleteService(id)
+				}
+			}
+		}
+
+		// filters of the parser keep transfers of trips they delete
+		feed.CleanTransfers()
+
 		minzers := make([]processors.Processor, 0)
 
 		if *dropTooFast {
-- 
2.43.0


From 019c8f0ee0e71b4c3135340cee4e8f39fd398541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 34/62] fix: don't join stop times with and without times

---
 processors/adjstoptimegrouper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 340b7c1..2893906 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,7 +31,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
 
 				// update previous stop
 				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-- 
2.43.0


From 9789bd4fd5727ade6ba3b1a930dba28582359f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 35/62] fix: compare the measures of adjacent stop times

---
 processors/adjstoptimegrouper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 2893906..9687574 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,7 +31,7 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].HasDistanceTraveled() == t.StopTimes[i].HasDistanceTraveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
 
 				// update previous stop
 				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-- 
2.43.0


From a4428f612bb2f56678ea24f99337430e52de3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 36/62] fix: keep the drop off types of joined stop times

---
 processors/adjstoptimegrouper.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 9687574..0e27b5f 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -31,11 +31,10 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 
 		for i := 1; i < len(t.StopTimes);i++ {
 			total++
-			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() {
+			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() && t.StopTimes[i-1].Continuous_drop_off() == t.StopTimes[i].Continuous_drop_off() {
 
 				// update previous stop
 				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetDrop_off_type(t.StopTimes[i-1].Drop_off_type())
 				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
 				grouped++
 			} else {
-- 
2.43.0


From 1e1ff56f0f20a8588ee373f1774b165af16dcc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 37/62] fix: move platforms before their stations

---
 processors/parentaverager.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/processors/parentaverager.go b/processors/parentaverager.go
index a00ee93..0a571e9 100644
--- a/processors/parentaverager.go
+++ b/processors/parentaverager.go
@@ -11,6 +11,7 @@ import (
 	"github.com/patrickbr/gtfsparser"
 	gtfs "github.com/patrickbr/gtfsparser/gtfs"
 	"os"
+	"sort"
 )
 
 // StopParentAverager takes stop parents that are
@@ -37,7 +38,17 @@ func (sdr StopParentAverager) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
-	for p, childs := range parentChilds {
+	// platforms of boarding areas may be moved themselves, so they come before their stations
+	parents := make([]*gtfs.Stop, 0, len(parentChilds))
+	for p := range parentChilds {
+		parents = append(parents, p)
+	}
+	sort.Slice(parents, func(i, j int) bool {
+		return parents[i].Parent_station != nil && parents[j].Parent_station == nil
+	})
+
+	for _, p := range parents {
+		childs := parentChilds[p]
 		avgLat := 0.0
 		avgLon := 0.0
 		tooLarge := false
-- 
2.43.0


From 845aa8c88f0cd95aaf8612da3573d48d8d9a5e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 38/62] fix: report input files that exist but cannot be opened

---
 gtfstidy.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 74e89b1..6bc1bc7 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -116,6 +116,24 @@ func sortedIds[V any](m map[string]V) []string {
 	return ids
 }
 
+// checkReadable returns an error if an optional file of the feed in the
+// directory at p exists, but cannot be opened. The parser takes such a file
+// for missing.
+func checkReadable(p string) error {
+	if fi, err := os.Stat(p); err != nil || !fi.IsDir() {
+		return nil
+	}
+	for _, name := range []string{"attributions.txt", "calendar.txt", "calendar_dates.txt", "fare_attributes.txt", "fare_rules.txt", "feed_info.txt", "frequencies.txt", "levels.txt", "pathways.txt", "shapes.txt", "transfers.txt"} {
+		fh, err := os.Open(path.Join(p, name))
+		if err == nil {
+			fh.Close()
+		} else if !os.IsNotExist(err) {
+			return err
+		}
+	}
+	return nil
+}
+
 func main() {
 	flag.Usage = func() {
 		fmt.Fprintf(os.Stderr, "gtfstidy - (C) 2016-2023 by Patrick Brosi <info@patrickbrosi.de>\n\nUsage:\n\n  %s [<options>] [-o <outputfile>] <input GTFS>\n\nAllowed options:\n\n", os.Args[0])
@@ -429,6 +447,14 @@ func main() {
 		}
 	}
 
+	for _, gtfsPath := range gtfsPaths {
+		if err := checkReadable(gtfsPath); err != nil {
+			fmt.Fprintf(os.Stderr, "\nError while parsing GTFS feed:\n")
+			fmt.Fprintln(os.Stderr, err.Error())
+			os.Exit(1)
+		}
+	}
+
 	feed := gtfsparser.NewFeed()
 	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, DryRun: *onlyValidate, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
 	opts.DropErroneous = *dropErroneousEntities && !*onlyValidate
-- 
2.43.0


From 7d622a3b79dc322b6a319706ad836d9545fc8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 39/62] fix: keep unset zones of fare rules unset when adding a
 prefix

---
 gtfstidy.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 6bc1bc7..d04ea0a 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -527,6 +527,23 @@ func main() {
 			break
 		}
 
+		// the parser also prefixes empty zones of fare rules
+		for prefix := range prefixes {
+			for _, fa := range feed.FareAttributes {
+				for _, rule := range fa.Rules {
+					if rule.Origin_id == prefix {
+						rule.Origin_id = ""
+					}
+					if rule.Destination_id == prefix {
+						rule.Destination_id = ""
+					}
+					if rule.Contains_id == prefix {
+						rule.Contains_id = ""
+					}
+				}
+			}
+		}
+
 		if opts.DropErroneous {
 			s := feed.ErrorStats
 			if opts.ShowWarnings {
-- 
2.43.0


From 238d284c46bbeeb0062d8556767fdf7a740a35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 40/62] fix: ignore untimed stop times in speed checks

---
 processors/toofasttripremover.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 13c0c78..94ada53 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -34,6 +34,10 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		for i := 1; i < len(t.StopTimes); i++ {
 			dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+			if t.StopTimes[i].Arrival_time().Empty() {
+				continue
+			}
+
 			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
 
 			speed := 0.0
@@ -100,10 +104,18 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 		}
 
 		for j := 1; j < len(t.StopTimes); j++ {
+			if t.StopTimes[j].Departure_time().Empty() {
+				continue
+			}
+
 			dist := 0.0
 			for i := j + 1; i < len(t.StopTimes); i++ {
 				dist += distSApprox(t.StopTimes[i-1].Stop(), t.StopTimes[i].Stop())
 
+				if t.StopTimes[i].Arrival_time().Empty() {
+					continue
+				}
+
 				inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - t.StopTimes[j].Departure_time().SecondsSinceMidnight()
 
 				speed := 0.0
-- 
2.43.0


From 591e6cee13c8230ec3e28cd81dcf3e45fda1c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 41/62] fix: keep the latest pickup type when grouping stop
 times

---
 processors/adjstoptimegrouper.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/processors/adjstoptimegrouper.go b/processors/adjstoptimegrouper.go
index 0e27b5f..b298f38 100644
--- a/processors/adjstoptimegrouper.go
+++ b/processors/adjstoptimegrouper.go
@@ -34,8 +34,21 @@ func (m AdjacentStopTimeGrouper) Run(feed *gtfsparser.Feed) {
 			if t.StopTimes[i-1].Stop() == t.StopTimes[i].Stop() && t.StopTimes[i-1].Arrival_time().Empty() == t.StopTimes[i].Arrival_time().Empty() && t.StopTimes[i-1].Arrival_time().Equals(t.StopTimes[i-1].Departure_time()) && t.StopTimes[i].Arrival_time().Equals(t.StopTimes[i].Departure_time()) && ((!t.StopTimes[i-1].HasDistanceTraveled() && !t.StopTimes[i].HasDistanceTraveled()) || (t.StopTimes[i-1].HasDistanceTraveled() && t.StopTimes[i].HasDistanceTraveled() && t.StopTimes[i-1].Shape_dist_traveled() == t.StopTimes[i].Shape_dist_traveled())) && t.StopTimes[i-1].Headsign() == t.StopTimes[i].Headsign() && t.StopTimes[i-1].Continuous_pickup() == t.StopTimes[i].Continuous_pickup() && t.StopTimes[i-1].Continuous_drop_off() == t.StopTimes[i].Continuous_drop_off() {
 
 				// update previous stop
-				newSt[len(newSt) - 1].SetDeparture_time(t.StopTimes[i].Departure_time())
-				newSt[len(newSt) - 1].SetPickup_type(t.StopTimes[i].Pickup_type())
+				// (SetPickup_type() does not clear the old type, so build it anew)
+				prev := newSt[len(newSt) - 1]
+				st := gtfs.StopTime{}
+				st.SetArrival_time(prev.Arrival_time())
+				st.SetDeparture_time(t.StopTimes[i].Departure_time())
+				st.SetStop(prev.Stop())
+				st.SetHeadsign(prev.Headsign())
+				st.SetSequence(prev.Sequence())
+				st.SetTimepoint(prev.Timepoint())
+				st.SetShape_dist_traveled(prev.Shape_dist_traveled())
+				st.SetPickup_type(t.StopTimes[i].Pickup_type())
+				st.SetDrop_off_type(prev.Drop_off_type())
+				st.SetContinuous_pickup(prev.Continuous_pickup())
+				st.SetContinuous_drop_off(prev.Continuous_drop_off())
+				newSt[len(newSt) - 1] = st
 				grouped++
 			} else {
 				newSt = append(newSt, t.StopTimes[i])
-- 
2.43.0


From 032c1200e43d66e5d3ac977effd6db0d69db8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:25 +0000
Subject: [PATCH 42/62] fix: find neighboring stop clusters in the first grid
 cell and at borders

---
 processors/stopclusteridx.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/processors/stopclusteridx.go b/processors/stopclusteridx.go
index 8653ac2..97a0ed8 100755
--- a/processors/stopclusteridx.go
+++ b/processors/stopclusteridx.go
@@ -34,13 +34,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -49,13 +51,15 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 			x, y := latLngToWebMerc(s.Lat, s.Lon)
 			if x < idx.llx {
 				idx.llx = x
-			} else if x > idx.urx {
+			}
+			if x > idx.urx {
 				idx.urx = x
 			}
 
 			if y < idx.lly {
 				idx.lly = y
-			} else if y > idx.ury {
+			}
+			if y > idx.ury {
 				idx.ury = y
 			}
 		}
@@ -72,8 +76,8 @@ func NewStopClusterIdx(clusters []*StopCluster, cellWidth, cellHeight float64) *
 		return &idx
 	}
 
-	idx.xWidth = uint(math.Ceil(idx.width / idx.cellWidth))
-	idx.yHeight = uint(math.Ceil(idx.height / idx.cellHeight))
+	idx.xWidth = uint(math.Floor(idx.width/idx.cellWidth)) + 1
+	idx.yHeight = uint(math.Floor(idx.height/idx.cellHeight)) + 1
 
 	// resize rows
 	idx.grid = make([][]map[int]bool, idx.xWidth)
@@ -149,8 +153,8 @@ func (gi *StopClusterIdx) GetNeighborsByLatLon(lat float64, lon float64, d float
 
 	lx, ly := latLngToWebMerc(float32(lat), float32(lon))
 
-	swX := max(0, gi.getCellXFromX(lx)-xPerm)
-	swY := max(0, gi.getCellYFromY(ly)-yPerm)
+	swX := gi.getCellXFromX(lx)
+	swY := gi.getCellYFromY(ly)
 
 	neX := min(gi.xWidth-1, gi.getCellXFromX(lx)+xPerm)
 	neY := min(gi.yHeight-1, gi.getCellYFromY(ly)+yPerm)
-- 
2.43.0


From 5b56c7638b06d0f853146966f5e6fc75d9333964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 43/62] fix: do not snap stops to shapes of a single point

---
 processors/shapesnapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 33b7f26..b4a1b46 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -45,7 +45,7 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 	}
 
 	for _, t := range feed.Trips {
-		if t.Shape == nil {
+		if t.Shape == nil || len(t.Shape.Points) < 2 {
 			continue
 		}
 
-- 
2.43.0


From df11ab0420e59a28b28f25797f9889d01521853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 44/62] fix: snap stops by their measure on the first shape
 segment, too

---
 processors/shapesnapper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index b4a1b46..88ffa5e 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -89,8 +89,8 @@ func (sm *ShapeSnapper) snapTo(stop *gtfs.Stop, distT float32, shape *gtfs.Shape
 	shp := sm.mercs[shape]
 
 	if float64(distT) != math.NaN() {
-		for i := 1; i < len(shape.Points); i++ {
-			if shape.Points[i].Dist_traveled <= distT && i < len(shape.Points) - 1 && shape.Points[i+1].Dist_traveled >= distT {
+		for i := 0; i < len(shape.Points) - 1; i++ {
+			if shape.Points[i].Dist_traveled <= distT && shape.Points[i+1].Dist_traveled >= distT && shape.Points[i+1].Dist_traveled > shape.Points[i].Dist_traveled {
 				d := (distT - shape.Points[i].Dist_traveled) / (shape.Points[i + 1].Dist_traveled - shape.Points[i].Dist_traveled)
 
 				dx := shp[i+1][0] - shp[i][0]
-- 
2.43.0


From cbd5f05069f945a1cbd84dec49a8c95cc01b3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 45/62] fix: names without telling words do not make stops
 similar

---
 processors/stopreclusterer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 0593d7a..e82cfce 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -474,6 +474,11 @@ func (m *StopReclusterer) stopSimi(a *gtfs.Stop, b *gtfs.Stop) float32 {
 
 	namesimi := cosSimi(vecA, vecB)
 
+	if math.IsNaN(namesimi) {
+		// a name of which every word is used by all stops says nothing
+		return float32(geosimi)
+	}
+
 	if namesimi > m.NameSimiThreshold { // this is the threshold value
 		namesimi = 0.5 + (namesimi-m.NameSimiThreshold)/(2*(1-m.NameSimiThreshold))
 	} else {
-- 
2.43.0


From f0c28cf4bf3c3b972f416e06ad4be648599fd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 46/62] fix: keep the priorities of stop clusters up to date

---
 processors/stopreclusterer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index e82cfce..83fedda 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -370,11 +370,9 @@ func (m *StopReclusterer) updateNeighIn(cId int, nId int, clusters []*StopCluste
 				sort.Sort(BySimi(neighs[cId]))
 			}
 
-			// we only have to update the PQ if the highest simi neighbor has changed
-			// this is the case if the new simi is bigger, or if we have changed the last element and it is now
-			// smaller
-			if neigh.simi > oldbestsimi || (i == len(neighs[cId])-1 && neigh.simi < oldbestsimi) {
-				pq.Items[pq.Pqids[cId]].priority = neighs[cId][len(neighs[cId])-1].simi
+			// we only have to update the PQ if the highest simi has changed
+			if newbestsimi := neighs[cId][len(neighs[cId])-1].simi; newbestsimi != oldbestsimi {
+				pq.Items[pq.Pqids[cId]].priority = newbestsimi
 				heap.Fix(pq, pq.Pqids[cId])
 			}
 			return
-- 
2.43.0


From cbc6e6aec6e47773deb13593dc429b7e3e400c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 47/62] fix: reject zip compression levels outside 0..9 before
 writing output

---
 gtfstidy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index d04ea0a..73a8177 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -355,6 +355,10 @@ func main() {
 		*useRedAgencyMinimizer = true
 	}
 
+	if *zipCompressionLevel < 0 || *zipCompressionLevel > 9 {
+		panic(fmt.Errorf("%d is not a valid ZIP compression level, must be between 0 and 9", *zipCompressionLevel))
+	}
+
 	for _, polyFile := range polygonFiles {
 		if strings.HasSuffix(polyFile, ".json") || strings.HasSuffix(polyFile, ".geojson") {
 			json, err := ioutil.ReadFile(polyFile)
-- 
2.43.0


From 02027eec1f82cdb559af7690f77c335cc9aae088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 48/62] fix: reject filter dates that are not exactly one real
 YYYYMMDD date

---
 gtfstidy.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 73a8177..2072502 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -21,6 +21,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"time"
 )
 
 func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
@@ -42,8 +43,8 @@ func getGtfsPoly(poly [][][]float64) gtfsparser.Polygon {
 func parseDate(str string) gtfs.Date {
 	var day, month, year int
 	var e error
-	if len(str) < 8 {
-		e = fmt.Errorf("only has %d characters, expected 8", len(str))
+	if len(str) != 8 {
+		e = fmt.Errorf("has %d characters, expected 8", len(str))
 	}
 	if e == nil {
 		day, e = strconv.Atoi(str[6:8])
@@ -67,6 +68,10 @@ func parseDate(str string) gtfs.Date {
 		e = fmt.Errorf("date must be in the range [19000101, 21551231]")
 	}
 
+	if e == nil {
+		_, e = time.Parse("20060102", str)
+	}
+
 	if e != nil {
 		panic(fmt.Errorf("Expected YYYYMMDD date, found '%s' (%s)", str, e.Error()))
 	}
-- 
2.43.0


From 9e3fb00d5b3cb0f34ffdb153ced879b0d6105fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 49/62] fix: report a bounding box that does not have two
 coordinates instead of ignoring it

---
 gtfstidy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index 2072502..d24297d 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -439,6 +439,12 @@ func main() {
 			}
 		}
 
+		if len(bboxString) > 0 && len(bbox) != 2 {
+			fmt.Fprintf(os.Stderr, "\nCould not parse bounding box filter: ")
+			fmt.Fprintf(os.Stderr, "expected 2 coordinates, found %d.\n", len(bbox))
+			os.Exit(1)
+		}
+
 		if len(bbox) == 2 {
 			poly := make([][2]float64, 4)
 
-- 
2.43.0


From 49a38b5ae91d8d21553dac5b58a231a8befb3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 50/62] fix: reject MOT filter values that do not fit a GTFS
 route type instead of truncating them

---
 gtfstidy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index d24297d..7127d7d 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -265,7 +265,7 @@ func main() {
 			if len(s) == 0 {
 				continue
 			}
-			i, err := strconv.Atoi(s)
+			i, err := strconv.ParseInt(s, 10, 16)
 
 			if err != nil {
 				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
@@ -281,7 +281,7 @@ func main() {
 			if len(s) == 0 {
 				continue
 			}
-			i, err := strconv.Atoi(s)
+			i, err := strconv.ParseInt(s, 10, 16)
 
 			if err != nil {
 				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
-- 
2.43.0


From 6f920a16276e3f8223b10fb74b7e24d246b56c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 51/62] fix: do not parse in dry-run mode for -v, which skips
 duplicate checks

---
 gtfstidy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index 7127d7d..b3d45be 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -471,7 +471,7 @@ func main() {
 	}
 
 	feed := gtfsparser.NewFeed()
-	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, DryRun: *onlyValidate, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
+	opts := gtfsparser.ParseOptions{UseDefValueOnError: false, DropErroneous: false, DryRun: false, CheckNullCoordinates: false, EmptyStringRepl: "", ZipFix: false, UseStandardRouteTypes: *useStandardRouteTypes, MOTFilter: motFilter, MOTFilterNeg: motFilterNeg, AssumeCleanCsv: *assumeCleanCsv, RemoveFillers: *removeFillers, UseGoogleSupportedRouteTypes: *useGoogleSupportedRouteTypes, DropSingleStopTrips: *dropSingleStopTrips}
 	opts.DropErroneous = *dropErroneousEntities && !*onlyValidate
 	opts.UseDefValueOnError = *useDefaultValuesOnError && !*onlyValidate
 	opts.CheckNullCoordinates = *checkNullCoords
-- 
2.43.0


From e4a1c2c4db779a021d4378280e8572eaf0b2d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 52/62] fix: name all options in the help texts of the
 shorthands

---
 gtfstidy.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gtfstidy.go b/gtfstidy.go
index b3d45be..d4c1e0e 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -159,10 +159,10 @@ func main() {
 	endDateFilter := flag.StringP("date-end", "", "", "end date filter, as YYYYMMDD")
 
 	fixShortHand := flag.BoolP("fix", "", false, "shorthand for -eDnz -p '-'")
-	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OSRCcIAP")
-	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
-	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICO")
-	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICO --red-trips-fuzzy --red-stops-fuzzy")
+	compressShortHand := flag.BoolP("compress", "", false, "shorthand for -OsSRCcIAP")
+	minimizeShortHand := flag.BoolP("Compress", "", false, "shorthand for -OsSRCcIAPdT --red-stops-fuzzy --red-trips-fuzzy, like --compress, but additionally compress stop times into frequencies, use fuzzy matching for redundant trip and stop removal and use dense character ids. The latter destroys any existing external references (like in GTFS realtime streams)")
+	mergeShortHand := flag.BoolP("merge", "", false, "shorthand for -ARPICcO")
+	fuzzyMergeShortHand := flag.BoolP("Merge", "", false, "shorthand for -EARPICcO --red-trips-fuzzy --red-stops-fuzzy")
 
 	assumeCleanCsv := flag.BoolP("assume-clean-csv", "", false, "assume clean csv (no leading spaces, clean line breaks)")
 	useDefaultValuesOnError := flag.BoolP("default-on-errs", "e", false, "if non-required fields have errors, fall back to the default values")
@@ -179,7 +179,7 @@ func main() {
 
 	idPrefix := flag.StringP("prefix", "", "", "prefix used before all ids")
 
-	keepIds := flag.BoolP("keep-ids", "", false, "preserve station, fare, shape, route, trip, level, agency, pathway, and service IDs")
+	keepIds := flag.BoolP("keep-ids", "", false, "preserve station, block, fare, shape, route, trip, level, agency, pathway, and service IDs")
 	keepStationIds := flag.BoolP("keep-station-ids", "", false, "preserve station IDs")
 	keepBlockIds := flag.BoolP("keep-block-ids", "", false, "preserve block IDs")
 	keepFareIds := flag.BoolP("keep-fare-ids", "", false, "preserve fare IDs")
-- 
2.43.0


From 30d8c8b67d9f08f7a26a38188ffdf9d872b19e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 53/62] fix: -O kept transfers from routes without trips

---
 processors/orphanminimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/orphanminimizer.go b/processors/orphanminimizer.go
index 990c1d2..c36e68d 100755
--- a/processors/orphanminimizer.go
+++ b/processors/orphanminimizer.go
@@ -105,7 +105,7 @@ func (or OrphanRemover) removeTransferOrphans(feed *gtfsparser.Feed) {
 		}
 
 		if tk.To_route != nil {
-			_, inFromRoute = referenced_routes[tk.To_route]
+			_, inToRoute = referenced_routes[tk.To_route]
 		}
 
 		if inFrom && inTo && inFromRoute && inToRoute {
-- 
2.43.0


From 009b67ad3b42243508c80f493c090ecccb217564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 54/62] fix: -E gave new stations attributes that not all of
 their stops have

---
 processors/stopreclusterer.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/processors/stopreclusterer.go b/processors/stopreclusterer.go
index 83fedda..69e4ee8 100755
--- a/processors/stopreclusterer.go
+++ b/processors/stopreclusterer.go
@@ -294,29 +294,27 @@ func (m *StopReclusterer) createParent(stops []*gtfs.Stop, feed *gtfsparser.Feed
 	avgLon := float32(0)
 
 	ret := &gtfs.Stop{}
-	ret.Wheelchair_boarding = 0
-	ret.Timezone, _ = gtfs.NewTimezone("")
+	ret.Wheelchair_boarding = stops[0].Wheelchair_boarding
+	ret.Timezone = stops[0].Timezone
 	ret.Url = nil
+	urlDiffers := false
 
 	for _, st := range stops {
 		avgLat += st.Lat
 		avgLon += st.Lon
 
-		if ret.Wheelchair_boarding == 0 && st.Wheelchair_boarding != 0 {
-			ret.Wheelchair_boarding = st.Wheelchair_boarding
-		} else if ret.Wheelchair_boarding != 0 && st.Wheelchair_boarding != ret.Wheelchair_boarding {
+		if st.Wheelchair_boarding != ret.Wheelchair_boarding {
 			ret.Wheelchair_boarding = 0
 		}
 
-		if ret.Url == nil && st.Url != nil {
+		if ret.Url == nil && st.Url != nil && !urlDiffers {
 			ret.Url = st.Url
 		} else if ret.Url != nil && st.Url != nil && st.Url.String() != ret.Url.String() {
 			ret.Url = nil
+			urlDiffers = true
 		}
 
-		if ret.Timezone.GetTzString() == "" && st.Timezone.GetTzString() != "" {
-			ret.Timezone = st.Timezone
-		} else if ret.Timezone.GetTzString() != "" && st.Timezone.GetTzString() != ret.Timezone.GetTzString() {
+		if st.Timezone.GetTzString() != ret.Timezone.GetTzString() {
 			ret.Timezone, _ = gtfs.NewTimezone("")
 		}
 	}
-- 
2.43.0


From e5e69ee06304683c44c82449eda9976ce112ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 55/62] fix: --snap-stops lost the additional fields of snapped
 stops

---
 processors/shapesnapper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/processors/shapesnapper.go b/processors/shapesnapper.go
index 88ffa5e..5556641 100644
--- a/processors/shapesnapper.go
+++ b/processors/shapesnapper.go
@@ -75,6 +75,12 @@ func (sm ShapeSnapper) Run(feed *gtfsparser.Feed) {
 				}
 
 				feed.Stops[newId] = &newStop
+
+				// update additional fields
+				for k := range feed.StopsAddFlds {
+					feed.StopsAddFlds[k][newId] = feed.StopsAddFlds[k][st.Stop().Id]
+				}
+
 				t.StopTimes[i].SetStop(&newStop)
 			}
 		}
-- 
2.43.0


From 80e450a7a7dca2565606321ff8933c5681a802b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 56/62] fix: --keep-attribution-ids did not restore the ids of
 prefixed feeds

---
 gtfstidy.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/gtfstidy.go b/gtfstidy.go
index d4c1e0e..cbeb0f5 100755
--- a/gtfstidy.go
+++ b/gtfstidy.go
@@ -983,6 +983,46 @@ func main() {
 			}
 		}
 
+		// restore attribution IDs, if requested
+		if *keepAttributionIds && len(prefixes) > 0 {
+			attributions := make(map[string][]*gtfs.Attribution)
+			collect := func(l []*gtfs.Attribution) {
+				for _, attr := range l {
+					if attr.Id != "" {
+						attributions[attr.Id] = append(attributions[attr.Id], attr)
+					}
+				}
+			}
+			collect(feed.Attributions)
+			for _, ag := range feed.Agencies {
+				collect(ag.Attributions)
+			}
+			for _, r := range feed.Routes {
+				collect(r.Attributions)
+			}
+			for _, t := range feed.Trips {
+				if t.Attributions != nil {
+					collect(*t.Attributions)
+				}
+			}
+
+			for _, id := range sortedIds(attributions) {
+				for prefix := range prefixes {
+					if strings.HasPrefix(id, prefix) {
+						oldId := strings.TrimPrefix(id, prefix)
+						if _, ok := attributions[oldId]; !ok {
+							for _, attr := range attributions[id] {
+								attr.Id = oldId
+							}
+							attributions[oldId] = attributions[id]
+							delete(attributions, id)
+						}
+						break
+					}
+				}
+			}
+		}
+
 		// restore level IDs, if requested
 		if *keepLevelIds && len(prefixes) > 0 {
 			for _, id := range sortedIds(feed.Levels) {
-- 
2.43.0


From fdcca4d757b40934865a2922b20c062604a875a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 57/62] fix: -c counted the weeks of the new range from the
 wrong day

The range found counts from the start of the first week, but was applied
from the first active day. Plain weekly patterns that do not start on a
Sunday ended up with exceptions.
---
 processors/serviceminimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index 0edc9f2..a6cb99e 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -179,7 +179,7 @@ out:
 		}
 	}
 
-	sm.updateService(service, bestMap, bestA, bestB, startTime, endTime, start, end)
+	sm.updateService(service, bestMap, bestA, bestB, startTimeAm, endTime, start, end)
 }
 
 func (sm ServiceMinimizer) countExceptions(s *gtfs.Service, actmap []bool, bm uint, startDiff int, endDiff int, a int, b int, max uint) uint {
-- 
2.43.0


From 60f61c4b15781c3f79bf88ddb128acea2a59eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 58/62] fix: -c skipped the best pattern of services with dates
 beyond their calendar

The lower bound on the number of exceptions counted weeks in which the
calendar of the service is not valid.
---
 processors/serviceminimizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index a6cb99e..b1ff9e8 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -151,10 +151,14 @@ func (sm ServiceMinimizer) perfectMinimize(service *gtfs.Service) {
 	startDiff := int(startTimeAm.Sub(startTime).Hours() / 24)
 	endDiff := int(startTimeAm.Sub(endTime).Hours() / 24)
 
+	calStart := int(service.Start_date().GetTime().Sub(startTimeAm).Hours() / 24)
+	calEnd := int(service.End_date().GetTime().Sub(startTimeAm).Hours() / 24)
+
 out:
 	for a := 0; a < l; a = a + 7 {
 		for b := l - 1; b > a; b = b - 7 {
-			fullWeekCoverage := ((b - a) - 7) / 7
+			// exceptions needed so far outside the calendar range don't count here
+			fullWeekCoverage := imax(0, (imin(b, calEnd)-imax(a, calStart)+1)/7)
 			for d := uint(1); d < 128; d++ {
 				minExc := fullWeekCoverage*daysNotMatched[d] - len(service.Exceptions())
 
-- 
2.43.0


From a40c0bc50870edef6434e93a39ed77e7ca79f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 59/62] fix: -c could make services larger

The best weekly pattern over full weeks may need more entries than the
service already has, keep the service as it is then.
---
 processors/serviceminimizer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/processors/serviceminimizer.go b/processors/serviceminimizer.go
index b1ff9e8..c820bd3 100755
--- a/processors/serviceminimizer.go
+++ b/processors/serviceminimizer.go
@@ -369,6 +369,20 @@ func (sm ServiceMinimizer) updateService(service *gtfs.Service, bestMap uint, be
 		}
 	}
 
+	// the best pattern over full weeks may still be worse than what the service
+	// already has
+	entries := len(newExceptions)
+	if newMap != [7]bool{} {
+		entries++
+	}
+	oldEntries := len(service.Exceptions())
+	if service.RawDaymap() != 0 {
+		oldEntries++
+	}
+	if entries > oldEntries {
+		return
+	}
+
 	service.SetExceptions(make(map[gtfs.Date]bool, 0))
 
 	for _, e := range newExceptions {
-- 
2.43.0


From 48dd7869ee1437f9c5fcb350d3e8c0a5af2997c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 60/62] fix: -T did not combine trips with a block, a short
 name or a headsign

These are pointers, which are only equal by chance (headsigns: if the
trips follow each other in trips.txt). Compare the values.
---
 processors/frequencyminizer.go | 6 +++---
 processors/util.go             | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/processors/frequencyminizer.go b/processors/frequencyminizer.go
index abaa181..16025aa 100755
--- a/processors/frequencyminizer.go
+++ b/processors/frequencyminizer.go
@@ -457,8 +457,8 @@ func (m FrequencyMinimizer) isTimeIndependentEqual(a *gtfs.Trip, b *gtfs.Trip, f
 			break
 		}
 	}
-	return addFldsEq && a.Route == b.Route && a.Service == b.Service && a.Headsign == b.Headsign &&
-		a.Short_name == b.Short_name && a.Direction_id == b.Direction_id && a.Block_id == b.Block_id &&
+	return addFldsEq && a.Route == b.Route && a.Service == b.Service && stringPtrEquals(a.Headsign, b.Headsign) &&
+		stringPtrEquals(a.Short_name, b.Short_name) && a.Direction_id == b.Direction_id && stringPtrEquals(a.Block_id, b.Block_id) &&
 		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&
 		a.Bikes_allowed == b.Bikes_allowed && a.Attributions == b.Attributions &&
 		m.hasSameRelStopTimes(a, b, feed)
@@ -519,7 +519,7 @@ func (m FrequencyMinimizer) hasSameRelStopTimes(a *gtfs.Trip, b *gtfs.Trip, feed
 		}
 
 		if !(addFldsEq && a.StopTimes[i].Stop() == b.StopTimes[i].Stop() &&
-			a.StopTimes[i].Headsign() == b.StopTimes[i].Headsign() &&
+			stringPtrEquals(a.StopTimes[i].Headsign(), b.StopTimes[i].Headsign()) &&
 			a.StopTimes[i].Pickup_type() == b.StopTimes[i].Pickup_type() && a.StopTimes[i].Drop_off_type() == b.StopTimes[i].Drop_off_type() && a.StopTimes[i].Continuous_drop_off() == b.StopTimes[i].Continuous_drop_off() && a.StopTimes[i].Continuous_pickup() == b.StopTimes[i].Continuous_pickup() &&
 			((math.IsNaN(float64(a.StopTimes[i].Shape_dist_traveled())) && math.IsNaN(float64(b.StopTimes[i].Shape_dist_traveled()))) || FloatEquals(a.StopTimes[i].Shape_dist_traveled(), b.StopTimes[i].Shape_dist_traveled(), 0.01)) && a.StopTimes[i].Timepoint() == b.StopTimes[i].Timepoint()) {
 			return false
diff --git a/processors/util.go b/processors/util.go
index 5e5c86e..874a4e2 100755
--- a/processors/util.go
+++ b/processors/util.go
@@ -310,6 +310,11 @@ func boolsToBytes(t []bool) []byte {
 	return b
 }
 
+// stringPtrEquals is true if both strings are unset, or equal
+func stringPtrEquals(a *string, b *string) bool {
+	return a == b || (a != nil && b != nil && *a == *b)
+}
+
 // moveTransfer moves a transfer and its additional fields to a new key. If
 // there already is a transfer for the new key, the existing transfer is kept.
 func moveTransfer(feed *gtfsparser.Feed, from gtfs.TransferKey, to gtfs.TransferKey) {
-- 
2.43.0


From 8eae2bdad0854d53e00a5297a458f340b764c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 61/62] fix: --drop-too-fast-trips ignored the first stop of a
 trip when looking at several hops

---
 processors/toofasttripremover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/processors/toofasttripremover.go b/processors/toofasttripremover.go
index 94ada53..92aa0d5 100644
--- a/processors/toofasttripremover.go
+++ b/processors/toofasttripremover.go
@@ -103,7 +103,7 @@ func (f TooFastTripRemover) Run(feed *gtfsparser.Feed) {
 			continue
 		}
 
-		for j := 1; j < len(t.StopTimes); j++ {
+		for j := 0; j < len(t.StopTimes); j++ {
 			if t.StopTimes[j].Departure_time().Empty() {
 				continue
 			}
-- 
2.43.0


From 334a7a90241fba5c30ecc4d1bb8fc6324587508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 62/62] fix: --non-overlapping-services could leave transfers
 of replaced trips

If the ID of a replaced trip was that of a new trip, its transfers were
not deleted and referred to the new trip.
---
 processors/servicenonoverlapper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/processors/servicenonoverlapper.go b/processors/servicenonoverlapper.go
index 4ad3460..66b72aa 100755
--- a/processors/servicenonoverlapper.go
+++ b/processors/servicenonoverlapper.go
@@ -166,8 +166,12 @@ func (sm ServiceNonOverlapper) Run(feed *gtfsparser.Feed) {
 		}
 	}
 
-	// trip-specific transfers of the original trips
-	feed.CleanTransfers()
+	// trip-specific transfers of the original trips, which are all replaced
+	for tk := range feed.Transfers {
+		if tk.From_trip != nil || tk.To_trip != nil {
+			feed.DeleteTransfer(tk)
+		}
+	}
 
 	fmt.Fprintf(os.Stdout, "done. (created %d calendar_dates.txt entries, %d monday, %d tuesday, %d wednesday, %d thursday, %d friday, %d saturday, %d sunday types)\n", len(feed.Services), len(day_types[1]), len(day_types[2]), len(day_types[3]), len(day_types[4]), len(day_types[5]), len(day_types[6]), len(day_types[0]))
 }
-- 
2.43.0

