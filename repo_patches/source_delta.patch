From f599781ee4a8affaa20d0e5df4a8fd13fcc04d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 01/52] fix: keep the aliases of the objects when a network is
 moved

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From 577cab436d308294fe33d33b7a40a8bf9c49536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 02/52] fix: invalidate the bus cache of the network's
 bus/breaker view

---
 src/iidm/NetworkViews.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
-- 
2.43.0


From 39a2d5d922c499016f0c2e0358ba3d6350d3c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 03/52] fix: invalidate the caches of every variant when buses
 or switches of a bus/breaker voltage level change

---
 include/powsybl/iidm/VariantContextGuard.hpp |  4 +++-
 src/iidm/BusBreakerVoltageLevel.cpp          | 16 ++++++++++++++++
 src/iidm/BusBreakerVoltageLevel.hpp          |  2 ++
 src/iidm/VariantContextGuard.cpp             | 13 ++++++++++---
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/VariantContextGuard.hpp b/include/powsybl/iidm/VariantContextGuard.hpp
index e9ba3bf..4e44860 100644
--- a/include/powsybl/iidm/VariantContextGuard.hpp
+++ b/include/powsybl/iidm/VariantContextGuard.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 #define POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 
+#include <powsybl/stdcxx/optional.hpp>
+
 namespace powsybl {
 
 namespace iidm {
@@ -30,7 +32,7 @@ public:
 private:
     VariantContext& m_context;
 
-    unsigned long m_variantIndex;
+    stdcxx::optional<unsigned long> m_variantIndex;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..4e7fc67 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -37,6 +37,7 @@ Bus& BusBreakerVoltageLevel::addBus(std::unique_ptr<ConfiguredBus>&& ptrBus) {
     unsigned long node = m_graph.addVertex();
     m_graph.setVertexObject(node, stdcxx::ref(bus));
     m_buses.insert(std::make_pair(bus.getId(), node));
+    invalidateCacheOfAllVariants();
 
     return bus;
 }
@@ -48,6 +49,7 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    invalidateCacheOfAllVariants();
 
     return aSwitch;
 }
@@ -288,6 +290,12 @@ void BusBreakerVoltageLevel::invalidateCache() {
     getNetwork().getSynchronousComponentsManager().invalidate();
 }
 
+void BusBreakerVoltageLevel::invalidateCacheOfAllVariants() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+}
+
 void BusBreakerVoltageLevel::reduceVariantArraySize(unsigned long number) {
     VoltageLevel::reduceVariantArraySize(number);
     m_variants.reduceVariantArraySize(number);
@@ -303,6 +311,8 @@ void BusBreakerVoltageLevel::removeAllBuses() {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
+    invalidateCacheOfAllVariants();
+
     for (const auto& it : m_graph.getVertexObjects()) {
         getNetwork().remove(it.get());
     }
@@ -312,6 +322,8 @@ void BusBreakerVoltageLevel::removeAllBuses() {
 }
 
 void BusBreakerVoltageLevel::removeAllSwitches() {
+    invalidateCacheOfAllVariants();
+
     for (const auto& it : m_graph.getEdgeObjects()) {
         getNetwork().remove(it.get());
     }
@@ -340,6 +352,8 @@ void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     }
 
     const auto& it = m_buses.find(busId);
+    invalidateCacheOfAllVariants();
+
     m_graph.removeVertex(it->second);
     m_buses.erase(it);
     getNetwork().remove(bus.get());
@@ -351,6 +365,8 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    invalidateCacheOfAllVariants();
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
diff --git a/src/iidm/BusBreakerVoltageLevel.hpp b/src/iidm/BusBreakerVoltageLevel.hpp
index 8049eba..2d5e6a2 100644
--- a/src/iidm/BusBreakerVoltageLevel.hpp
+++ b/src/iidm/BusBreakerVoltageLevel.hpp
@@ -114,6 +114,8 @@ private:
 
     stdcxx::optional<unsigned long> getVertex(const std::string& busId, bool throwException) const;
 
+    void invalidateCacheOfAllVariants();
+
     void removeAllBuses();
 
     void removeAllSwitches();
diff --git a/src/iidm/VariantContextGuard.cpp b/src/iidm/VariantContextGuard.cpp
index 1734b2b..bf82019 100644
--- a/src/iidm/VariantContextGuard.cpp
+++ b/src/iidm/VariantContextGuard.cpp
@@ -14,12 +14,19 @@ namespace powsybl {
 namespace iidm {
 
 VariantContextGuard::VariantContextGuard(VariantContext& context) :
-    m_context(context),
-    m_variantIndex(context.getVariantIndex()) {
+    m_context(context) {
+
+    if (context.isIndexSet()) {
+        m_variantIndex = context.getVariantIndex();
+    }
 }
 
 VariantContextGuard::~VariantContextGuard() noexcept {
-    m_context.setVariantIndex(m_variantIndex);
+    if (m_variantIndex) {
+        m_context.setVariantIndex(*m_variantIndex);
+    } else if (m_context.isIndexSet()) {
+        m_context.resetIfVariantIndexIs(m_context.getVariantIndex());
+    }
 }
 
 }  // namespace iidm
-- 
2.43.0


From 2f607321958b8e595aed059bd960fe28466d4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 04/52] fix: invalidate the caches of every variant when
 switches or internal connections of a node/breaker voltage level change

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 13 +++++++++++--
 src/iidm/NodeBreakerVoltageLevel.hpp |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..f1c9faf 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,7 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    invalidateCacheOfAllVariants();
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -43,6 +43,7 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     m_graph.addVertexIfNotPresent(node2);
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    invalidateCacheOfAllVariants();
 
     return aSwitch;
 }
@@ -342,6 +343,12 @@ void NodeBreakerVoltageLevel::invalidateCache() {
     getNetwork().getSynchronousComponentsManager().invalidate();
 }
 
+void NodeBreakerVoltageLevel::invalidateCacheOfAllVariants() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
+}
+
 bool NodeBreakerVoltageLevel::isConnected(const Terminal& terminal) const {
     const auto& nodeTerminal = dynamic_cast<const NodeTerminal&>(terminal);
 
@@ -366,7 +373,7 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    invalidateCacheOfAllVariants();
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -375,6 +382,8 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
         throw PowsyblException(stdcxx::format("Switch '%1%' not found in voltage level '%2%'", switchId, getId()));
     }
 
+    invalidateCacheOfAllVariants();
+
     const auto& aSwitch = m_graph.removeEdge(it->second);
     clean();
 
diff --git a/src/iidm/NodeBreakerVoltageLevel.hpp b/src/iidm/NodeBreakerVoltageLevel.hpp
index 78a121c..f6cf4c6 100644
--- a/src/iidm/NodeBreakerVoltageLevel.hpp
+++ b/src/iidm/NodeBreakerVoltageLevel.hpp
@@ -126,6 +126,8 @@ private:
 
     stdcxx::Reference<Terminal> getTerminal(unsigned long node);
 
+    void invalidateCacheOfAllVariants();
+
     void removeInternalConnections(unsigned long node1, unsigned long node2);
 
     void removeSwitch(const std::string& switchId);
-- 
2.43.0


From 1931df6571cc91acf07ec7503204e3d300a368fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 05/52] fix: change the connectable bus of a terminal in the
 working variant only, and consistently

---
 src/iidm/BusBreakerVoltageLevel.cpp |  5 ++---
 src/iidm/BusTerminalViews.cpp       | 10 ++++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4e7fc67..77fc519 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -111,10 +111,9 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
 
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..4e1e972 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -48,11 +48,13 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     auto& voltageLevel = dynamic_cast<BusBreakerVoltageLevel&>(m_terminal.getVoltageLevel());
 
     // Assert that the new bus exists
-    voltageLevel.getConfiguredBus(busId, true);
+    ConfiguredBus& bus = voltageLevel.getConfiguredBus(busId, true);
 
-    voltageLevel.detach(m_terminal);
-    m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    // The connectable bus depends on the variant: only the working variant is modified
+    voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true).get().removeTerminal(m_terminal);
+    m_terminal.setConnectableBusId(bus.getId());
+    bus.addTerminal(m_terminal);
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From eb497c0b1ff8e59ebc3085135a33b3a6e985a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 06/52] fix: refuse to remove a bus that has terminals in
 another variant than the working one

---
 src/iidm/BusBreakerVoltageLevel.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 77fc519..f87c6f1 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -304,12 +304,14 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     if (m_graph.getEdgeCount() > 0) {
         throw ValidationException(*this, stdcxx::format("Cannot remove all buses because there is still some switches"));
     }
-    for (const auto& it : m_graph.getVertexObjects()) {
-        const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
-            throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        for (const auto& it : m_graph.getVertexObjects()) {
+            const auto& bus = it.get();
+            if (bus.getTerminalCount() > 0) {
+                throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
+            }
         }
-    }
+    });
     invalidateCacheOfAllVariants();
 
     for (const auto& it : m_graph.getVertexObjects()) {
@@ -333,9 +335,11 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
-        throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
-    }
+    getNetwork().getVariantManager().forEachVariant([this, &bus, &busId]() {
+        if (bus.get().getTerminalCount() > 0) {
+            throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
+        }
+    });
 
     for (const auto& it : m_switches) {
         const auto& switchId = it.first;
-- 
2.43.0


From 986a747abc5aad6b04027113c411a705f908f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 07/52] fix: size the traversal marks of the merged buses on
 the highest vertex

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..48f1cc8 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getMaxVertex(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From 637f7993b316987641bc227bf4acd0756bc6378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 08/52] fix: allow to remove all the vertices of a graph whose
 edges have all been removed one by one

---
 include/powsybl/math/UndirectedGraph.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..1ebf49d 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -342,10 +342,12 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() > 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
+    m_edges.clear();
+    m_removedEdges.clear();
     m_vertices.clear();
     m_availableVertices.clear();
 
-- 
2.43.0


From 8a077f97eb394fb0b0cbdc2c356d597694685fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 09/52] fix: ignore internal connections when the switches of a
 removed voltage level are removed

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index f1c9faf..6177a84 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -392,8 +392,10 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const stdcxx::Reference<Switch>& s : m_graph.getEdgeObjects()) {
+        if (s) { // internal connections have no switch
+            getNetwork().getIndex().remove(s.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
-- 
2.43.0


From e14d2c050e186d8386c2ed5ccedcf95863ff900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 10/52] fix: do not abort when a terminal is detached from a
 sparse node/breaker graph

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 6177a84..29ed5c6 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -131,7 +131,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(node < m_graph.getVertexCapacity());
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From ddd9f558018423c83d64f03864be21725a64d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 11/52] fix: do not iterate over the live lists while a voltage
 level or a substation is removed

---
 src/iidm/Substation.cpp   | 15 +++++++++++++--
 src/iidm/VoltageLevel.cpp |  7 ++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..a6a1e32 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -130,9 +130,20 @@ VoltageLevelAdder Substation::newVoltageLevel() {
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
-        // Remove all branches, transformers and HVDC lines
+    const auto voltageLevels = m_voltageLevels;
+    for (VoltageLevel& vl : voltageLevels) {
+        std::vector<std::reference_wrapper<Connectable>> connectables;
         for (Connectable& connectable : vl.getConnectables()) {
+            const auto& it = std::find_if(connectables.begin(), connectables.end(), [&connectable](const std::reference_wrapper<Connectable>& c) {
+                return stdcxx::areSame(c.get(), connectable);
+            });
+            if (it == connectables.end()) {
+                connectables.emplace_back(connectable);
+            }
+        }
+
+        // Remove all branches, transformers and HVDC lines
+        for (Connectable& connectable : connectables) {
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..b599a69 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -7,6 +7,9 @@
 
 #include <powsybl/iidm/VoltageLevel.hpp>
 
+#include <functional>
+#include <vector>
+
 #include <powsybl/iidm/Battery.hpp>
 #include <powsybl/iidm/BatteryAdder.hpp>
 #include <powsybl/iidm/Bus.hpp>
@@ -238,7 +241,9 @@ void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
     // Remove all connectables
-    for (Connectable& connectable : getConnectables()) {
+    const auto& connectables = getConnectables();
+    const std::vector<std::reference_wrapper<Connectable>> removedConnectables(connectables.begin(), connectables.end());
+    for (Connectable& connectable : removedConnectables) {
         connectable.remove();
     }
 
-- 
2.43.0


From 2b87df73ed20bdf872d114100e9d1d4111a80b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 12/52] fix: attach the converter stations to an HVDC line only
 once the line is accepted

---
 include/powsybl/iidm/HvdcLine.hpp |  4 +++-
 src/iidm/HvdcLine.cpp             | 10 +++++-----
 src/iidm/HvdcLineAdder.cpp        |  1 +
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/iidm/HvdcLine.hpp b/include/powsybl/iidm/HvdcLine.hpp
index 7a27aee..f1aee85 100644
--- a/include/powsybl/iidm/HvdcLine.hpp
+++ b/include/powsybl/iidm/HvdcLine.hpp
@@ -89,7 +89,9 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    HvdcConverterStation& attach(HvdcConverterStation& converterStation);
+    void attachConverterStations();
+
+    friend class HvdcLineAdder;
 
 private:
     stdcxx::Reference<HvdcConverterStation> m_converterStation1;
diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..e7ccb10 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -18,8 +18,8 @@ namespace iidm {
 HvdcLine::HvdcLine(Network& network, const std::string& id, const std::string& name, bool fictitious, double r, double nominalV, double maxP,
                    const ConvertersMode& convertersMode, double activePowerSetpoint, HvdcConverterStation& converterStation1, HvdcConverterStation& converterStation2) :
     Identifiable(id, name, fictitious),
-    m_converterStation1(attach(converterStation1)),
-    m_converterStation2(attach(converterStation2)),
+    m_converterStation1(converterStation1),
+    m_converterStation2(converterStation2),
     m_r(checkR(*this, r)),
     m_nominalV(checkNominalVoltage(*this, nominalV)),
     m_maxP(checkHvdcMaxP(*this, maxP)),
@@ -36,9 +36,9 @@ void HvdcLine::allocateVariantArrayElement(const std::set<unsigned long>& indexe
     }
 }
 
-HvdcConverterStation& HvdcLine::attach(HvdcConverterStation& converterStation) {
-    converterStation.setHvdcLine(stdcxx::ref(*this));
-    return converterStation;
+void HvdcLine::attachConverterStations() {
+    m_converterStation1.get().setHvdcLine(stdcxx::ref(*this));
+    m_converterStation2.get().setHvdcLine(stdcxx::ref(*this));
 }
 
 void HvdcLine::extendVariantArraySize(unsigned long initVariantArraySize, unsigned long number, unsigned long sourceIndex) {
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..e3595f2 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -36,6 +36,7 @@ HvdcLine& HvdcLineAdder::add() {
     std::unique_ptr<HvdcLine> ptrHvdcLine = stdcxx::make_unique<HvdcLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_nominalV, m_maxP, *m_convertersMode, m_activePowerSetpoint,
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
+    line.attachConverterStations();
 
     return line;
 }
-- 
2.43.0


From 209fb4881a1a5b2fb7e4448ec56d209e4ab818d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 13/52] fix: recompute the connected components when an HVDC
 line is added or removed

---
 src/iidm/HvdcLine.cpp      | 6 ++++++
 src/iidm/HvdcLineAdder.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index e7ccb10..eb9ee2e 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLine.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
@@ -123,6 +124,11 @@ void HvdcLine::reduceVariantArraySize(unsigned long number) {
 void HvdcLine::remove() {
     Network& network = getNetwork();
 
+    // An HVDC line takes part in the connected components
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
+
     // Detach converter stations
     m_converterStation1.get().setHvdcLine(stdcxx::ref<HvdcLine>());
     m_converterStation2.get().setHvdcLine(stdcxx::ref<HvdcLine>());
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index e3595f2..3ba3296 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLineAdder.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/HvdcLine.hpp>
 #include <powsybl/iidm/Network.hpp>
@@ -37,6 +38,9 @@ HvdcLine& HvdcLineAdder::add() {
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
     line.attachConverterStations();
+    m_network.getVariantManager().forEachVariant([this]() {
+        m_network.getConnectedComponentsManager().invalidate();
+    });
 
     return line;
 }
-- 
2.43.0


From 08b2a641f87535230a2baa7aa7932b6d5da0ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 14/52] fix: visit every terminal of the buses reached by a
 bus/breaker traversal

---
 src/iidm/BusBreakerVoltageLevel.cpp | 39 +++++++++++++----------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index f87c6f1..7d22aeb 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -398,33 +398,30 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
 
         addNextTerminals(terminal, nextTerminals);
 
+        // visit all the terminals of a bus, the bus is traversed unless all its terminals are refused
+        const auto& traverseBus = [&traverser, &traversedTerminals, &nextTerminals](ConfiguredBus& bus) {
+            bool traversed = bus.getTerminalCount() == 0;
+            for (BusTerminal& t : bus.getTerminals()) {
+                if (traversedTerminals.find(t) != traversedTerminals.end()) {
+                    traversed = true;
+                } else if (traverser.traverse(t, t.isConnected())) {
+                    traversedTerminals.emplace(t);
+                    addNextTerminals(t, nextTerminals);
+                    traversed = true;
+                }
+            }
+            return traversed;
+        };
+
         // then check we can traverse terminal connected to same bus
         unsigned long v = *getVertex(terminal.getConnectableBusId(), true);
-        ConfiguredBus& bus = m_graph.getVertexObject(v);
-        for (Terminal& t : bus.getTerminals()) {
-            if (!stdcxx::areSame(t, terminal) && traverser.traverse(t, t.isConnected())) {
-                addNextTerminals(t, nextTerminals);
-            }
-        }
+        traverseBus(m_graph.getVertexObject(v));
 
         // then go through other buses of the substation
-        m_graph.traverse(v, [this, &traverser, &traversedTerminals, &nextTerminals](unsigned long /*v1*/, unsigned long e, unsigned long v2) {
+        m_graph.traverse(v, [this, &traverser, &traverseBus](unsigned long /*v1*/, unsigned long e, unsigned long v2) {
             Switch& aSwitch = m_graph.getEdgeObject(e);
             ConfiguredBus& otherBus = m_graph.getVertexObject(v2);
-            if (traverser.traverse(aSwitch)) {
-                if (otherBus.getTerminalCount() == 0) {
-                    return math::TraverseResult::CONTINUE;
-                }
-
-                BusTerminal& otherTerminal = *otherBus.getTerminals().begin();
-                if (traverser.traverse(otherTerminal, otherTerminal.isConnected())) {
-                    traversedTerminals.emplace(otherTerminal);
-
-                    addNextTerminals(otherTerminal, nextTerminals);
-                    return math::TraverseResult::CONTINUE;
-                }
-            }
-            return math::TraverseResult::TERMINATE;
+            return traverser.traverse(aSwitch) && traverseBus(otherBus) ? math::TraverseResult::CONTINUE : math::TraverseResult::TERMINATE;
         });
 
         for (Terminal& t : nextTerminals) {
-- 
2.43.0


From d904c462d23369f1603f636168403b3961cbad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 15/52] fix: check that an equipment can be attached before it
 is added to the network

---
 include/powsybl/iidm/Connectable.hpp       |  2 ++
 src/iidm/BatteryAdder.cpp                  |  5 +++--
 src/iidm/Connectable.cpp                   | 26 ++++++++++++++++++++++
 src/iidm/DanglingLineAdder.cpp             |  5 +++--
 src/iidm/GeneratorAdder.cpp                |  5 +++--
 src/iidm/LccConverterStationAdder.cpp      |  5 +++--
 src/iidm/LineAdder.cpp                     | 10 ++++-----
 src/iidm/LoadAdder.cpp                     |  5 +++--
 src/iidm/NodeBreakerVoltageLevel.cpp       | 18 +++++++++------
 src/iidm/ShuntCompensatorAdder.cpp         |  5 +++--
 src/iidm/StaticVarCompensatorAdder.cpp     |  5 +++--
 src/iidm/ThreeWindingsTransformerAdder.cpp | 16 +++++--------
 src/iidm/TieLineAdder.cpp                  | 10 ++++-----
 src/iidm/TwoWindingsTransformerAdder.cpp   | 10 ++++-----
 src/iidm/VscConverterStationAdder.cpp      |  5 +++--
 15 files changed, 81 insertions(+), 51 deletions(-)

diff --git a/include/powsybl/iidm/Connectable.hpp b/include/powsybl/iidm/Connectable.hpp
index ea868c5..084a772 100644
--- a/include/powsybl/iidm/Connectable.hpp
+++ b/include/powsybl/iidm/Connectable.hpp
@@ -32,6 +32,8 @@ public:
 
     Terminal& addTerminal(std::unique_ptr<Terminal>&& terminal);
 
+    void checkAttachable();
+
     const ConnectableType& getType() const;
 
     std::vector<std::reference_wrapper<Terminal> > getTerminals() const;
diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..c9d7b72 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,9 +30,10 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/Connectable.cpp b/src/iidm/Connectable.cpp
index 4507a25..9a2be98 100644
--- a/src/iidm/Connectable.cpp
+++ b/src/iidm/Connectable.cpp
@@ -7,8 +7,14 @@
 
 #include <powsybl/iidm/Connectable.hpp>
 
+#include <algorithm>
+
 #include <powsybl/iidm/Network.hpp>
+#include <powsybl/iidm/TopologyKind.hpp>
+#include <powsybl/iidm/ValidationException.hpp>
 #include <powsybl/iidm/VoltageLevel.hpp>
+#include <powsybl/stdcxx/format.hpp>
+#include <powsybl/stdcxx/reference.hpp>
 
 namespace powsybl {
 
@@ -34,6 +40,26 @@ Terminal& Connectable::addTerminal(std::unique_ptr<Terminal>&& terminal) {
     return *m_terminals.back();
 }
 
+void Connectable::checkAttachable() {
+    for (auto it = m_terminals.begin(); it != m_terminals.end(); ++it) {
+        Terminal& terminal = **it;
+        VoltageLevel& voltageLevel = terminal.getVoltageLevel();
+        voltageLevel.attach(terminal, true);
+
+        // two terminals of a same equipment cannot share a node
+        if (voltageLevel.getTopologyKind() == TopologyKind::NODE_BREAKER) {
+            unsigned long node = terminal.getNodeBreakerView().getNode();
+            bool shared = std::any_of(m_terminals.begin(), it, [&voltageLevel, node](const std::unique_ptr<Terminal>& other) {
+                return stdcxx::areSame(other->getVoltageLevel(), voltageLevel) && other->getNodeBreakerView().getNode() == node;
+            });
+            if (shared) {
+                throw ValidationException(*this, stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                                                getId(), node, voltageLevel.getId()));
+            }
+        }
+    }
+}
+
 void Connectable::deleteVariantArrayElement(unsigned long index) {
     Identifiable::deleteVariantArrayElement(index);
 
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..66db5f8 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,10 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..cabbec3 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,9 +37,10 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
     getVoltageLevel().attach(terminal, false);
 
     return generator;
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..e1883be 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,10 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..626b2c3 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -37,15 +37,13 @@ Line& LineAdder::add() {
     checkR(*this, m_r);
     checkX(*this, m_x);
 
+    std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
+    Terminal& terminal1 = ptrLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrLine->addTerminal(std::move(ptrTerminal2));
     // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    ptrLine->checkAttachable();
 
-    std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
     auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
-
-    Terminal& terminal1 = line.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = line.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..4901a22 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,10 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 29ed5c6..41e9c0a 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -60,13 +60,6 @@ void NodeBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
         unsigned long node = nodeTerminal.getNode();
         m_graph.addVertexIfNotPresent(node);
 
-        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
-        if (static_cast<bool>(tmp)) {
-            throw ValidationException(terminal.getConnectable(),
-                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
-                                tmp.get().getConnectable().get().getId(), node, getId()));
-        }
-
         // create the link terminal <-> graph vertex
         m_graph.setVertexObject(node, stdcxx::ref(nodeTerminal));
 
@@ -82,6 +75,17 @@ void NodeBreakerVoltageLevel::checkTerminal(Terminal& terminal) const {
             stdcxx::format("Voltage level %1% has a node/breaker topology, a node connection should be specified instead of a bus connection",
                             getId()));
     }
+
+    // check that the node is not already used by another equipment
+    unsigned long node = dynamic_cast<NodeTerminal&>(terminal).getNode();
+    if (m_graph.vertexExists(node)) {
+        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
+        if (static_cast<bool>(tmp)) {
+            throw ValidationException(terminal.getConnectable(),
+                stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
+                                tmp.get().getConnectable().get().getId(), node, getId()));
+        }
+    }
 }
 
 void NodeBreakerVoltageLevel::clean() {
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..5c113d5 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,9 +34,10 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
     getVoltageLevel().attach(terminal, false);
 
     return shunt;
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..d3c3b21 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,9 +31,10 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
     getVoltageLevel().attach(terminal, false);
 
     return svc;
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..1e7065e 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -45,11 +45,6 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     VoltageLevel& voltageLevel3 = m_adder3->checkAndGetVoltageLevel();
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
-    // check that the 3 windings transformer is attachable on the 3 sides
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-    voltageLevel3.attach(*ptrTerminal3, true);
-
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
         m_ratedU0 = leg1.getRatedU();
@@ -57,12 +52,13 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     }
 
     std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
-    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
-
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    Terminal& terminal3 = transformer.addTerminal(std::move(ptrTerminal3));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal3 = ptrTransformer->addTerminal(std::move(ptrTerminal3));
+    // check that the 3 windings transformer is attachable on the 3 sides
+    ptrTransformer->checkAttachable();
 
+    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
     voltageLevel3.attach(terminal3, false);
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..6017504 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -39,15 +39,13 @@ TieLine& TieLineAdder::add() {
     TieLine::HalfLine half1 = m_halfLineAdder1->build();
     TieLine::HalfLine half2 = m_halfLineAdder2->build();
 
+    std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
+    Terminal& terminal1 = ptrTieLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTieLine->addTerminal(std::move(ptrTerminal2));
     // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    ptrTieLine->checkAttachable();
 
-    std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
     auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
-
-    Terminal& terminal1 = tieLine.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = tieLine.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..f588f0c 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -40,15 +40,13 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     checkRatedU2(*this, m_ratedU2);
     checkRatedS(*this, m_ratedS);
 
+    std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
     // check that the two windings transformer is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    ptrTransformer->checkAttachable();
 
-    std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
     auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
-
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..9843211 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,10 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From d8bc72c48e4ee8b4e0b08ad9e245c637f2dde2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 16/52] fix: do not dereference the missing regulation terminal
 of a ratio tap changer without load tap changing capabilities

---
 src/iidm/ValidationUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..105d817 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -331,7 +331,7 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
         }
     }
-- 
2.43.0


From 74d31c387bd3ffa5df963227a59f554fb0afa34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 17/52] fix: check the regulation of a tap changer, and that it
 is the only one regulating, when it is switched on

---
 include/powsybl/iidm/PhaseTapChanger.hpp  | 2 ++
 include/powsybl/iidm/TapChangerHolder.hpp | 4 ++++
 src/iidm/PhaseTapChanger.cpp              | 6 ++++++
 src/iidm/RatioTapChanger.cpp              | 1 +
 4 files changed, 13 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..f890fbf 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -36,8 +36,12 @@ private:
     virtual unsigned long getRegulatingTapChangerCount() const = 0;
 
 private:
+    friend class PhaseTapChanger;
+
     friend class PhaseTapChangerAdder;
 
+    friend class RatioTapChanger;
+
     friend class RatioTapChangerAdder;
 };
 
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..6869403 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,6 +57,12 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), getParent().getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
     m_regulationMode = regulationMode;
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..d1044d8 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -63,6 +63,7 @@ RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapCha
 
 RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
     checkRatioTapChangerRegulation(getParent(), regulating, m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), getParent().getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     return TapChanger::setRegulating(regulating);
 }
 
-- 
2.43.0


From 20f4ab4ff2fe27c162f72aa2ab2cd01d56d6bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 18/52] fix: check in every variant that a new tap changer is
 the only one regulating

---
 src/iidm/PhaseTapChangerAdder.cpp | 8 +++++---
 src/iidm/RatioTapChangerAdder.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/iidm/PhaseTapChangerAdder.cpp b/src/iidm/PhaseTapChangerAdder.cpp
index 955fb2f..05439b4 100644
--- a/src/iidm/PhaseTapChangerAdder.cpp
+++ b/src/iidm/PhaseTapChangerAdder.cpp
@@ -83,9 +83,11 @@ PhaseTapChanger& PhaseTapChangerAdder::add() {
     std::unique_ptr<PhaseTapChanger> ptrPhaseTapChanger = stdcxx::make_unique<PhaseTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                *m_tapPosition, m_regulating, m_regulationMode, m_regulationValue, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasPhaseTapChanger() && m_parent.getPhaseTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasRatioTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
diff --git a/src/iidm/RatioTapChangerAdder.cpp b/src/iidm/RatioTapChangerAdder.cpp
index d07216b..d70259f 100644
--- a/src/iidm/RatioTapChangerAdder.cpp
+++ b/src/iidm/RatioTapChangerAdder.cpp
@@ -78,9 +78,11 @@ RatioTapChanger& RatioTapChangerAdder::add() {
     std::unique_ptr<RatioTapChanger> ptrRatioTapChanger = stdcxx::make_unique<RatioTapChanger>(m_parent, m_lowTapPosition, m_steps, m_regulationTerminal,
                                                                                                m_loadTapChangingCapabilities, *m_tapPosition, m_regulating, m_targetV, m_targetDeadband);
 
-    bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
-    unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
-    checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        bool wasRegulating = m_parent.hasRatioTapChanger() && m_parent.getRatioTapChanger().isRegulating();
+        unsigned long count = m_parent.getRegulatingTapChangerCount() - (wasRegulating ? 1 : 0);
+        checkOnlyOneTapChangerRegulatingEnabled(m_parent, count, m_regulating);
+    });
 
     if (m_parent.hasPhaseTapChanger()) {
         logger.warn("%1% both Ratio and Phase Tap Changer are defined", m_parent.getMessageHeader());
-- 
2.43.0


From 4e623eae46acafdc3207e1357a8dad1614d5693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 19/52] fix: check the new load tap changing capabilities of a
 ratio tap changer, in every variant

---
 src/iidm/RatioTapChanger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index d1044d8..4e9b98b 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,9 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    getNetwork().getVariantManager().forEachVariant([this, loadTapChangingCapabilities]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    });
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
-- 
2.43.0


From 620c56f3b42b07f741309b086d403c4785d77de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 20/52] fix: check the attributes shared by the variants
 against every variant

---
 src/iidm/PhaseTapChanger.cpp             | 8 ++++++--
 src/iidm/RatioTapChanger.cpp             | 4 +++-
 src/iidm/ShuntCompensatorLinearModel.cpp | 5 ++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index 6869403..d0d9819 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -64,13 +64,17 @@ PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
-    checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    getNetwork().getVariantManager().forEachVariant([this, &regulationMode]() {
+        checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
+    });
     m_regulationMode = regulationMode;
     return *this;
 }
 
 PhaseTapChanger& PhaseTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), isRegulating(), regulationTerminal, getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 4e9b98b..1b82c1c 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -70,7 +70,9 @@ RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
 }
 
 RatioTapChanger& RatioTapChanger::setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    getNetwork().getVariantManager().forEachVariant([this, &regulationTerminal]() {
+        checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, regulationTerminal, getTargetV(), getNetwork());
+    });
     return TapChanger::setRegulationTerminal(regulationTerminal);
 }
 
diff --git a/src/iidm/ShuntCompensatorLinearModel.cpp b/src/iidm/ShuntCompensatorLinearModel.cpp
index cb9f4c1..9596e1d 100644
--- a/src/iidm/ShuntCompensatorLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorLinearModel.cpp
@@ -73,7 +73,10 @@ ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setGPerSection(double
 }
 
 ShuntCompensatorLinearModel& ShuntCompensatorLinearModel::setMaximumSectionCount(unsigned long maximumSectionCount) {
-    checkSections(m_shuntCompensator, m_shuntCompensator.get().getSectionCount(), maximumSectionCount);
+    ShuntCompensator& shuntCompensator = m_shuntCompensator;
+    shuntCompensator.getNetwork().getVariantManager().forEachVariant([&shuntCompensator, maximumSectionCount]() {
+        checkSections(shuntCompensator, shuntCompensator.getSectionCount(), maximumSectionCount);
+    });
     m_maximumSectionCount = maximumSectionCount;
     return *this;
 }
-- 
2.43.0


From f9916116e135432e749228feb1b956099b57cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 21/52] fix: shift the tap position of every variant with the
 lowest tap position

---
 include/powsybl/iidm/TapChanger.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..7282613 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -167,7 +167,9 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From 13ef0fe9b1fb3579e9705fb72c4299a919577003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 22/52] fix: initialize the limits of a leg with the number of
 the leg

---
 src/iidm/ThreeWindingsTransformerLeg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ThreeWindingsTransformerLeg.cpp b/src/iidm/ThreeWindingsTransformerLeg.cpp
index db4587d..1b96843 100644
--- a/src/iidm/ThreeWindingsTransformerLeg.cpp
+++ b/src/iidm/ThreeWindingsTransformerLeg.cpp
@@ -21,7 +21,7 @@ namespace iidm {
 namespace three_windings_transformer {
 
 Leg::Leg(unsigned long legNumber, double r, double x, double g, double b, double ratedU, double ratedS) :
-    FlowsLimitsHolder(stdcxx::format("limits%1%", m_legNumber)),
+    FlowsLimitsHolder(stdcxx::format("limits%1%", legNumber)),
     m_legNumber(legNumber),
     m_r(checkR(*this, r)),
     m_x(checkX(*this, x)),
-- 
2.43.0


From 1e3a8f04de16dd331210e508aebe8528944a7c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 23/52] fix: keep one variant index per network for a thread
 working on several networks

---
 .../ThreadLocalMultipleVariantContext.cpp     | 25 +++++++++++++------
 .../ThreadLocalMultipleVariantContext.hpp     | 10 +++++---
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..b7dbdd4 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,39 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+thread_local std::map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexes;
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() {
+    static std::atomic<unsigned long> s_contextCount(0UL);
+    m_contextId = s_contextCount++;
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& it = m_indexes.find(m_contextId);
+    if (it != m_indexes.end()) {
+        return it->second;
     }
+
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return m_indexes.find(m_contextId) != m_indexes.end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    m_indexes.erase(m_contextId);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    const auto& it = m_indexes.find(m_contextId);
+    if (it != m_indexes.end() && it->second == index) {
+        m_indexes.erase(it);
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    m_indexes[m_contextId] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..d9fed94 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,7 +27,7 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
     ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
 
@@ -41,7 +42,10 @@ public:
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // indexes selected by the current thread, by context: a thread may work on several networks
+    static thread_local std::map<unsigned long, unsigned long> m_indexes;
+
+    unsigned long m_contextId;
 };
 
 }  // namespace iidm
-- 
2.43.0


From 194275823ab89c90090f87b57b6f9847f2c5bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 24/52] fix: clone nothing when one of the target variants is
 refused, and clone a repeated target once

---
 src/iidm/VariantManager.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..ef6d148 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -95,14 +95,19 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
-    for (const auto& targetVariantId : targetVariantIds) {
-        if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
+    if (!mayOverwrite) {
+        // nothing must be changed if one of the targets is refused
+        std::set<std::string> targets;
+        for (const auto& targetVariantId : targetVariantIds) {
+            if (m_variantsById.find(targetVariantId) != m_variantsById.end() || !targets.insert(targetVariantId).second) {
                 throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
             }
         }
+    }
+    for (const auto& targetVariantId : std::set<std::string>(targetVariantIds)) {
+        if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
+            overwritten.emplace(m_variantsById[targetVariantId]);
+        }
         else if (m_unusedIndexes.empty()) {
             // extend variant array size
             m_variantsById.insert(std::make_pair(targetVariantId, m_variantArraySize));
-- 
2.43.0


From 132faa0cbb212e86ba04f42b6195f62891b0cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 25/52] fix: remove the given number of variants from the slack
 terminals, not all but that number

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..a8cc5a5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From a9e6a9b7fb90fe51c73ae421ffaec240c3c08fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 26/52] fix: do not look for the anonymized id of the switches
 in an anonymized bus/breaker export

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From 7294f446a468a0e9cf0e218034bb0ea5ff7cb281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 27/52] fix: check that a valid measurement keeps a value when
 the measurement is updated

---
 extensions/iidm/src/DiscreteMeasurement.cpp | 1 +
 extensions/iidm/src/Measurement.cpp         | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/extensions/iidm/src/DiscreteMeasurement.cpp b/extensions/iidm/src/DiscreteMeasurement.cpp
index ce6c1cc..8c70008 100644
--- a/extensions/iidm/src/DiscreteMeasurement.cpp
+++ b/extensions/iidm/src/DiscreteMeasurement.cpp
@@ -159,6 +159,7 @@ DiscreteMeasurement& DiscreteMeasurement::removeProperty(const std::string& name
 }
 
 DiscreteMeasurement& DiscreteMeasurement::setValid(bool valid) {
+    DiscreteMeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
-- 
2.43.0


From 21adde9cd203d44ac744f4b0bd4f33d8ec3c0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 28/52] fix: return the measurement that was just added even
 when it has no id

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..cbffc12 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& newDiscreteMeasurement = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return newDiscreteMeasurement;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..9f2eeb8 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,10 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& newMeasurement = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+
+    return newMeasurement;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From fd0593cb30d2e873cc0a5afe2445630047cb4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 29/52] fix: allow to move a network that has unused variants

---
 include/powsybl/iidm/VariantArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..b940aec 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,7 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : std::unique_ptr<V>());
     }
 }
 
-- 
2.43.0


From 01dee2ae806e9cd888fd63d277329fc3c6fce7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 30/52] fix: refuse an object whose id is already an alias of
 another object

---
 include/powsybl/iidm/NetworkIndex.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 813b307..ca15f46 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -38,6 +38,10 @@ T& NetworkIndex::checkAndAdd(std::unique_ptr<T>&& identifiable) {
     if (other != m_objectsById.end()) {
         throw PowsyblException(stdcxx::format("Object '%1%' already exists (%2%)", identifiable->getId(), stdcxx::demangle(*other->second)));
     }
+    auto alias = m_idByAlias.find(identifiable->getId());
+    if (alias != m_idByAlias.end()) {
+        throw PowsyblException(stdcxx::format("Object '%1%' already exists (%2%)", identifiable->getId(), stdcxx::demangle(*m_objectsById.at(alias->second))));
+    }
 
     auto ptrIdentifiable = std::unique_ptr<Identifiable, Deleter>(identifiable.release());
     for (const std::string& alias : ptrIdentifiable->getAliases()) {
-- 
2.43.0


From 84152423964ece87fad9f805275fecad6e704ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 31/52] fix: attach the sections of a non linear shunt
 compensator, so that they can be changed

---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..796f593 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -35,6 +35,8 @@ public:
     private:
         Section& attach(ShuntCompensator& shuntCompensator);
 
+        friend class ShuntCompensatorNonLinearModel;
+
     private:
         stdcxx::Reference<ShuntCompensator> m_shuntCompensator;
 
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..0c04b40 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (auto& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From c77de7579f28a07620f2a9872ea5724b6de622fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 32/52] fix: allow to iterate several times over the distinct
 connectables of a voltage level or a substation

---
 include/powsybl/iidm/util/DistinctPredicate.hpp | 10 +++++++---
 src/iidm/util/DistinctPredicate.cpp             | 13 +------------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/include/powsybl/iidm/util/DistinctPredicate.hpp b/include/powsybl/iidm/util/DistinctPredicate.hpp
index f7fa21b..bb2e951 100644
--- a/include/powsybl/iidm/util/DistinctPredicate.hpp
+++ b/include/powsybl/iidm/util/DistinctPredicate.hpp
@@ -8,7 +8,6 @@
 #ifndef POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 #define POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 
-#include <memory>
 #include <set>
 #include <string>
 
@@ -20,7 +19,7 @@ class Identifiable;
 
 class DistinctPredicate {
 public:
-    DistinctPredicate();
+    DistinctPredicate() = default;
 
     ~DistinctPredicate() = default;
 
@@ -28,10 +27,15 @@ public:
 
     DistinctPredicate(DistinctPredicate&&) = default;
 
+    DistinctPredicate& operator=(const DistinctPredicate&) = default;
+
+    DistinctPredicate& operator=(DistinctPredicate&&) = default;
+
     bool operator()(const Identifiable& identifiable) const;
 
 private:
-    std::shared_ptr<std::set<std::string> > m_ids;
+    // each iteration over a range, that owns a copy of the predicate, has its own set of ids
+    mutable std::set<std::string> m_ids;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/util/DistinctPredicate.cpp b/src/iidm/util/DistinctPredicate.cpp
index 9015cfd..f689c61 100644
--- a/src/iidm/util/DistinctPredicate.cpp
+++ b/src/iidm/util/DistinctPredicate.cpp
@@ -8,24 +8,13 @@
 #include <powsybl/iidm/util/DistinctPredicate.hpp>
 
 #include <powsybl/iidm/Identifiable.hpp>
-#include <powsybl/stdcxx/make_unique.hpp>
 
 namespace powsybl {
 
 namespace iidm {
 
-DistinctPredicate::DistinctPredicate() :
-    m_ids(std::make_shared<std::set<std::string>>()) {
-
-}
-
 bool DistinctPredicate::operator()(const Identifiable& identifiable) const {
-    if (m_ids->find(identifiable.getId()) == m_ids->end()) {
-        m_ids->insert(identifiable.getId());
-        return true;
-    }
-
-    return false;
+    return m_ids.insert(identifiable.getId()).second;
 }
 
 }  // namespace iidm
-- 
2.43.0


From 62d4b0cae3932bf8e6ca8403bc00d6722a8ea031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 33/52] fix: a discrete measurement cannot be added without a
 type (the type was read uninitialised)

---
 .../iidm/extensions/iidm/DiscreteMeasurementAdder.hpp    | 3 ++-
 extensions/iidm/src/DiscreteMeasurementAdder.cpp         | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
index 904e835..a28a82c 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
@@ -11,6 +11,7 @@
 #include <string>
 
 #include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
+#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -80,7 +81,7 @@ private:
 
     std::string m_id;
 
-    DiscreteMeasurement::Type m_type;
+    stdcxx::optional<DiscreteMeasurement::Type> m_type;
 
     stdcxx::optional<DiscreteMeasurement::TapChanger> m_tapChanger;
 
diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index cbffc12..cbcc687 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -26,12 +26,15 @@ DiscreteMeasurementAdder::DiscreteMeasurementAdder(DiscreteMeasurements& discret
 
 DiscreteMeasurement& DiscreteMeasurementAdder::add() {
     DiscreteMeasurementValidationUtil::checkId(m_id, m_discreteMeasurements);
-    DiscreteMeasurementValidationUtil::checkType(m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
-    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    if (!m_type) {
+        throw PowsyblException("Discrete measurement type can not be null");
+    }
+    DiscreteMeasurementValidationUtil::checkType(*m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, *m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
     DiscreteMeasurementValidationUtil::checkValue(m_value, m_valid);
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
-        new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+        new DiscreteMeasurement(m_discreteMeasurements, m_id, *m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
     DiscreteMeasurement& newDiscreteMeasurement = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-- 
2.43.0


From 1bac3c8c056e9c49aec1d6bc10e526728df84379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 34/52] fix: do not write the extensions that have no
 serializer or nothing to serialize

---
 src/iidm/converter/xml/NetworkXml.cpp | 43 ++++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..c364ff9 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -8,6 +8,9 @@
 #include "NetworkXml.hpp"
 
 #include <chrono>
+#include <functional>
+#include <utility>
+#include <vector>
 
 #include <boost/filesystem/fstream.hpp>
 
@@ -76,15 +79,14 @@ stdcxx::CReference<ExtensionXmlSerializer> getExtensionSerializer(const ExportOp
         serializer = stdcxx::cref(extensionProviders.findProviderOrThrowException(extension.getName()));
     } else {
         serializer = extensionProviders.findProvider(extension.getName());
-        if (serializer) {
-            if (!serializer.get().isSerializable(extension)) {
-                serializer.reset();
-            }
-        } else {
+        if (!serializer) {
             logging::Logger& logger = logging::LoggerFactory::getLogger<NetworkXml>();
             logger.warn("No extension XML serializer for %1%", extension.getName());
         }
     }
+    if (serializer && !serializer.get().isSerializable(extension)) {
+        serializer.reset();
+    }
 
     return serializer;
 }
@@ -166,20 +168,14 @@ void writeExtensionNamespaces(const Network& network, NetworkXmlWriterContext& c
     }
 }
 
-void writeExtension(const Extension& extension, NetworkXmlWriterContext& context) {
+void writeExtension(const Extension& extension, const ExtensionXmlSerializer& serializer, NetworkXmlWriterContext& context) {
     powsybl::xml::XmlStreamWriter& writer = context.getWriter();
-    stdcxx::CReference<ExtensionXmlSerializer> serializer = getExtensionSerializer(context.getOptions(), extension);
-    if (!serializer) {
-        throw AssertionError(stdcxx::format("Extension XML Serializer of %1% should not be null", extension.getName()));
-    }
-
     const std::string& version = context.getExtensionVersion(extension.getName());
     if (!version.empty()) {
-        serializer.get().checkExtensionVersionSupported(version);
+        serializer.checkExtensionVersionSupported(version);
     }
-
-    writer.writeStartElement(serializer.get().getNamespacePrefix(), extension.getName());
-    serializer.get().write(extension, context);
+    writer.writeStartElement(serializer.getNamespacePrefix(), extension.getName());
+    serializer.write(extension, context);
     writer.writeEndElement();
 }
 
@@ -188,13 +184,24 @@ void writeExtensions(const Network& network, NetworkXmlWriterContext& context) {
         if (!context.isExportedEquipment(identifiable.getId()) || boost::empty(identifiable.getExtensions()) || !context.getOptions().hasAtLeastOneExtension(identifiable.getExtensions())) {
             continue;
         }
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
-        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        // extensions without serializer, or which have nothing to serialize, are not written
+        std::vector<std::pair<std::reference_wrapper<const Extension>, std::reference_wrapper<const ExtensionXmlSerializer>>> extensions;
         for (const auto& extension : identifiable.getExtensions()) {
             if (context.getOptions().withExtension(extension.getName())) {
-                writeExtension(extension, context);
+                const auto& serializer = getExtensionSerializer(context.getOptions(), extension);
+                if (serializer) {
+                    extensions.emplace_back(extension, serializer.get());
+                }
             }
         }
+        if (extensions.empty()) {
+            continue;
+        }
+        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
+        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        for (const auto& it : extensions) {
+            writeExtension(it.first, it.second, context);
+        }
         context.getWriter().writeEndElement();
     }
 }
-- 
2.43.0


From f82a0dc50d3cec7a1badebd49c80f0f1fdc73693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 35/52] fix: write the extensions of the network

---
 src/iidm/converter/xml/NetworkXml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index c364ff9..f62374d 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -315,6 +315,7 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
 
     AliasesXml::write(network, NETWORK, context);
     PropertiesXml::write(network, context);
+    context.addExportedEquipment(network);
 
     for (const auto& substation : network.getSubstations()) {
         SubstationXml::getInstance().write(substation, network, context);
-- 
2.43.0


From 44e71f7ca445fc2c4d102517b8121195468f8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 36/52] fix: read the properties and the aliases of a bus until
 the end of the bus

---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From adcf08dc2a95d89b9be183813085d6d1163940b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 37/52] fix: anonymize the ids of the converter stations of an
 HVDC line

---
 src/iidm/converter/xml/HvdcLineXml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iidm/converter/xml/HvdcLineXml.cpp b/src/iidm/converter/xml/HvdcLineXml.cpp
index c59f78d..b921343 100644
--- a/src/iidm/converter/xml/HvdcLineXml.cpp
+++ b/src/iidm/converter/xml/HvdcLineXml.cpp
@@ -36,8 +36,8 @@ HvdcLine& HvdcLineXml::readRootElementAttributes(HvdcLineAdder& adder, NetworkXm
     const auto& convertersMode = Enum::fromString<HvdcLine::ConvertersMode>(context.getReader().getAttributeValue(CONVERTERS_MODE));
     const auto& activePowerSetpoint = context.getReader().getAttributeValue<double>(ACTIVE_POWER_SETPOINT);
     const auto& maxP = context.getReader().getAttributeValue<double>(MAX_P);
-    const std::string& converterStation1 = context.getReader().getAttributeValue(CONVERTER_STATION1);
-    const std::string& converterStation2 = context.getReader().getAttributeValue(CONVERTER_STATION2);
+    const std::string& converterStation1 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION1));
+    const std::string& converterStation2 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION2));
     return adder.setR(r)
         .setNominalV(nominalV)
         .setConvertersMode(convertersMode)
@@ -60,8 +60,8 @@ void HvdcLineXml::writeRootElementAttributes(const HvdcLine& line, const Network
     context.getWriter().writeAttribute(CONVERTERS_MODE, Enum::toString(line.getConvertersMode()));
     context.getWriter().writeAttribute(ACTIVE_POWER_SETPOINT, line.getActivePowerSetpoint());
     context.getWriter().writeAttribute(MAX_P, line.getMaxP());
-    context.getWriter().writeAttribute(CONVERTER_STATION1, line.getConverterStation1().get().getId());
-    context.getWriter().writeAttribute(CONVERTER_STATION2, line.getConverterStation2().get().getId());
+    context.getWriter().writeAttribute(CONVERTER_STATION1, context.getAnonymizer().anonymizeString(line.getConverterStation1().get().getId()));
+    context.getWriter().writeAttribute(CONVERTER_STATION2, context.getAnonymizer().anonymizeString(line.getConverterStation2().get().getId()));
 }
 
 }  // namespace xml
-- 
2.43.0


From 52795462b47acd6fd6bf691df350f0c7c9d26ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 38/52] fix: do not write what the version does not support
 when incompatibilities are only logged

---
 src/iidm/converter/xml/IidmXmlUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/IidmXmlUtil.cpp b/src/iidm/converter/xml/IidmXmlUtil.cpp
index d47836e..8de64c8 100644
--- a/src/iidm/converter/xml/IidmXmlUtil.cpp
+++ b/src/iidm/converter/xml/IidmXmlUtil.cpp
@@ -103,7 +103,7 @@ void IidmXmlUtil::assertMinimumVersionIfNotDefault(bool valueIsNotDefault, const
 void IidmXmlUtil::assertMinimumVersionAndRunIfNotDefault(bool valueIsNotDefault, const std::string& rootElementName, const std::string& elementName, const char* errorMessage, const IidmXmlVersion& minVersion, const NetworkXmlWriterContext& context, const std::function<void()>& runnable) {
     if (valueIsNotDefault) {
         assertMinimumVersion(rootElementName, elementName, errorMessage, minVersion, context);
-        runnable();
+        runFromMinimumVersion(minVersion, context.getVersion(), runnable);
     }
 }
 
-- 
2.43.0


From 29ae9dd9f9df743f604e98c7c16f68ec1e3be927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 39/52] fix: name the extension that does not support the
 version of an export

---
 .../xml/AbstractVersionableExtensionXmlSerializer.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
index 3e6c357..8f47d5f 100644
--- a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
+++ b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
@@ -77,7 +77,12 @@ const std::string& AbstractVersionableExtensionXmlSerializer::getVersion() const
 }
 
 const std::string& AbstractVersionableExtensionXmlSerializer::getVersion(const IidmXmlVersion& networkVersion) const {
-    return m_extensionVersions.at(networkVersion.toString(".")).back();
+    const auto& strVersion = networkVersion.toString(".");
+    const auto& it = m_extensionVersions.find(strVersion);
+    if (it == m_extensionVersions.end()) {
+        throw PowsyblException(stdcxx::format("IIDM-XML version of network (%1%) is not supported by the %2% extension's XML serializer", strVersion, getExtensionName()));
+    }
+    return it->second.back();
 }
 
 }  // namespace xml
-- 
2.43.0


From 78c5c628b0cfb709529e08ba038af49f154fe63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 40/52] fix: read an active power control that has no droop

---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..eaf6842 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -18,7 +18,7 @@
 
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
-
+#include <powsybl/stdcxx/math.hpp>
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +36,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From 717f5911cc07faeb8f6585325b97630b2ff72938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 41/52] fix: read a discrete measurement whose value is an
 empty string

---
 extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp b/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
index 589f09b..0892b85 100644
--- a/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementsXmlSerializer.cpp
@@ -63,7 +63,9 @@ void DiscreteMeasurementsXmlSerializer::readDiscreteMeasurement(DiscreteMeasurem
         adder.setTapChanger(Enum::fromString<DiscreteMeasurement::TapChanger>(tapChanger));
     }
     auto valueType = Enum::fromString<DiscreteMeasurement::ValueType>(reader.getAttributeValue(VALUE_TYPE));
-    if (!reader.getOptionalAttributeValue(VALUE, "").empty()) {
+    const std::string& value = reader.getOptionalAttributeValue(VALUE, "");
+    // an empty string is written as an absent value
+    if (!value.empty() || valueType == DiscreteMeasurement::ValueType::STRING) {
         switch (valueType) {
             case DiscreteMeasurement::ValueType::BOOLEAN:
                 adder.setValue(reader.getAttributeValue<bool>(VALUE));
@@ -74,7 +76,7 @@ void DiscreteMeasurementsXmlSerializer::readDiscreteMeasurement(DiscreteMeasurem
                 break;
 
             case DiscreteMeasurement::ValueType::STRING:
-                adder.setValue(reader.getAttributeValue(VALUE));
+                adder.setValue(value);
                 break;
 
             default:
-- 
2.43.0


From 63832f130f04a9338853e6d9c9e6fe4e7c95332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 42/52] fix: read the mapping of an anonymized document whose
 strings contain separators or line breaks

---
 src/iidm/converter/SimpleAnonymizer.cpp | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..45fca4d 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -7,11 +7,10 @@
 
 #include <powsybl/iidm/converter/SimpleAnonymizer.hpp>
 
+#include <algorithm>
 #include <istream>
 #include <ostream>
 
-#include <boost/algorithm/string.hpp>
-
 #include <powsybl/PowsyblException.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
@@ -73,17 +72,26 @@ unsigned long SimpleAnonymizer::getStringCount() const {
 }
 
 void SimpleAnonymizer::read(std::istream& stream) {
+    // the anonymized string never contains a separator nor a line break, contrary to the original one
+    std::string text;
     std::string line;
-    while (std::getline(stream, line))
-    {
-        std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
-
-        if (cells.size() != 2) {
-            throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
+    while (std::getline(stream, line)) {
+        text += line;
+
+        const auto separator = text.rfind(';');
+        const auto firstLetter = text.begin() + (separator == std::string::npos ? text.size() : separator + 1);
+        if (firstLetter == text.end() || !std::all_of(firstLetter, text.end(), [](char c) { return c >= 'A' && c <= 'Z'; })) {
+            // the original string goes on in the next line
+            text += '\n';
+            continue;
         }
 
-        m_mapping.insert(Mapping::value_type(cells[0], cells[1]));
+        m_mapping.insert(Mapping::value_type(text.substr(0, separator), text.substr(separator + 1)));
+        text.clear();
+    }
+
+    if (!text.empty()) {
+        throw PowsyblException(stdcxx::format("Invalid line '%1%'", text.substr(0, text.size() - 1)));
     }
 }
 
-- 
2.43.0


From 6638ed89acd7c3366ee200d93cc3c220e58d2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 43/52] fix: never use the id of the network as an anonymized
 string

---
 include/powsybl/iidm/converter/SimpleAnonymizer.hpp |  7 +++++++
 src/iidm/converter/SimpleAnonymizer.cpp             | 10 +++++++++-
 src/iidm/converter/xml/NetworkXml.cpp               |  8 +++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/iidm/converter/SimpleAnonymizer.hpp b/include/powsybl/iidm/converter/SimpleAnonymizer.hpp
index a2ff54c..21106af 100644
--- a/include/powsybl/iidm/converter/SimpleAnonymizer.hpp
+++ b/include/powsybl/iidm/converter/SimpleAnonymizer.hpp
@@ -38,6 +38,11 @@ public:
 public:
     SimpleAnonymizer() = default;
 
+    /**
+     * @param reservedString a string that is never used as an anonymized string
+     */
+    explicit SimpleAnonymizer(const std::string& reservedString);
+
     ~SimpleAnonymizer() override = default;
 
     SimpleAnonymizer(const SimpleAnonymizer&) = default;
@@ -55,6 +60,8 @@ private:
 
 private:
     Mapping m_mapping;
+
+    std::string m_reservedString;
 };
 
 }  // namespace converter
diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 45fca4d..d699060 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -20,6 +20,10 @@ namespace iidm {
 
 namespace converter {
 
+SimpleAnonymizer::SimpleAnonymizer(const std::string& reservedString) :
+    m_reservedString(reservedString) {
+}
+
 Country SimpleAnonymizer::anonymizeCountry(const Country& country) {
     return country;
 }
@@ -33,7 +37,11 @@ std::string SimpleAnonymizer::anonymizeString(const std::string& str) {
     if (it != m_mapping.left.end()) {
         return it->second;
     }
-    const std::string& anonymizedStr = getAlpha(m_mapping.size() + 1);
+    unsigned long num = m_mapping.size() + 1;
+    std::string anonymizedStr = getAlpha(num);
+    while (anonymizedStr == m_reservedString || m_mapping.right.find(anonymizedStr) != m_mapping.right.end()) {
+        anonymizedStr = getAlpha(++num);
+    }
     m_mapping.insert(Mapping::value_type(str, anonymizedStr));
     return anonymizedStr;
 }
diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index f62374d..ade7110 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -295,7 +295,13 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
 
     powsybl::xml::XmlStreamWriter writer(os, options.isIndent());
 
-    std::unique_ptr<Anonymizer> anonymizer = options.isAnonymized() ? stdcxx::make_unique<Anonymizer, SimpleAnonymizer>() : stdcxx::make_unique<Anonymizer, FakeAnonymizer>();
+    std::unique_ptr<Anonymizer> anonymizer;
+    if (options.isAnonymized()) {
+        // the id of the network is not anonymized: it cannot be the anonymized id of an object
+        anonymizer = stdcxx::make_unique<SimpleAnonymizer>(network.getId());
+    } else {
+        anonymizer = stdcxx::make_unique<FakeAnonymizer>();
+    }
 
     const BusFilter& filter = BusFilter::create(network, options);
 
-- 
2.43.0


From 24d26697a9950e9b26d69edc43d3540e5603fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 44/52] fix: leave the aliases out of the documents of versions
 that have none

---
 src/iidm/converter/xml/AliasesXml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iidm/converter/xml/AliasesXml.cpp b/src/iidm/converter/xml/AliasesXml.cpp
index d01f9a9..ec2f810 100644
--- a/src/iidm/converter/xml/AliasesXml.cpp
+++ b/src/iidm/converter/xml/AliasesXml.cpp
@@ -35,6 +35,9 @@ void AliasesXml::read(Identifiable& identifiable, const NetworkXmlReaderContext&
 
 void AliasesXml::write(const Identifiable& identifiable, const std::string& rootElementName, NetworkXmlWriterContext& context) {
     IidmXmlUtil::assertMinimumVersionIfNotDefault(identifiable.hasAliases(), rootElementName, ALIAS, ErrorMessage::NOT_DEFAULT_NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
+    if (context.getVersion() < IidmXmlVersion::V1_3()) {
+        return;
+    }
     for (const std::string& alias : identifiable.getAliases()) {
         context.getWriter().writeStartElement(context.getVersion().getPrefix(), ALIAS);
         IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &alias, &identifiable]() {
-- 
2.43.0


From 5f258775eebfa2b0b65b8f654800d54ff7e2397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 45/52] fix: do not compute the polar form of an undefined
 voltage

---
 src/iidm/util/SV.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/iidm/util/SV.cpp b/src/iidm/util/SV.cpp
index cf1933e..966943d 100644
--- a/src/iidm/util/SV.cpp
+++ b/src/iidm/util/SV.cpp
@@ -7,6 +7,8 @@
 
 #include <powsybl/iidm/util/SV.hpp>
 
+#include <cmath>
+
 #include <powsybl/iidm/DanglingLine.hpp>
 #include <powsybl/iidm/Line.hpp>
 #include <powsybl/iidm/TieLine.hpp>
@@ -17,6 +19,18 @@ namespace powsybl {
 
 namespace iidm {
 
+namespace {
+
+/**
+ * The complex voltage, that is not a number when the voltage is undefined (std::polar does not accept an undefined magnitude)
+ */
+std::complex<double> toComplexVoltage(double u, double a) {
+    const double theta = a * stdcxx::toRadians;
+    return {u * std::cos(theta), u * std::sin(theta)};
+}
+
+}  // namespace
+
 SV::SV(double p, double q, double u, double a, const Branch::Side& side) :
     m_p(p),
     m_q(q),
@@ -153,13 +167,13 @@ SV SV::otherSide(const LinkData::BranchAdmittanceMatrix& adm) const {
     std::complex<double> s;
     Branch::Side otherSide;
     if (m_side == Branch::Side::ONE) {
-        std::complex<double> v1 = std::polar(m_u, m_a * stdcxx::toRadians);
+        std::complex<double> v1 = toComplexVoltage(m_u, m_a);
         std::complex<double> s1(m_p, m_q);
         v = voltageAtEnd2(adm, v1, s1);
         s = flowAtEnd2(adm, v1, v);
         otherSide = Branch::Side::TWO;
     } else {
-        std::complex<double> v2 = std::polar(m_u, m_a * stdcxx::toRadians);
+        std::complex<double> v2 = toComplexVoltage(m_u, m_a);
         std::complex<double> s2(m_p, m_q);
         v = voltageAtEnd1(adm, v2, s2);
         s = flowAtEnd1(adm, v, v2);
@@ -271,11 +285,11 @@ double SV::otherSideU(const LinkData::BranchAdmittanceMatrix& adm) const {
 std::complex<double> SV::otherSideV(const LinkData::BranchAdmittanceMatrix& adm) const {
     std::complex<double> v;
     if (m_side == Branch::Side::ONE) {
-        std::complex<double> v1 = std::polar(m_u, m_a * stdcxx::toRadians);
+        std::complex<double> v1 = toComplexVoltage(m_u, m_a);
         std::complex<double> s1(m_p, m_q);
         v = voltageAtEnd2(adm, v1, s1);
     } else {
-        std::complex<double> v2 = std::polar(m_u, m_a * stdcxx::toRadians);
+        std::complex<double> v2 = toComplexVoltage(m_u, m_a);
         std::complex<double> s2(m_p, m_q);
         v = voltageAtEnd1(adm, v2, s2);
     }
-- 
2.43.0


From 9b9c077f939e9b05fafcb15aef95c14624363bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 46/52] fix: make the list of the edges between two vertices
 compile

---
 include/powsybl/math/UndirectedGraph.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 1ebf49d..dd14d1e 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -242,11 +242,11 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     const std::vector<std::vector<unsigned long> >& adjacencyList = getAdjacencyList();
     const std::vector<unsigned long>& adjacentEdges = adjacencyList[v1];
 
-    const auto& edgeMapper = [this](const unsigned long& e) {
-        return m_edges[e].get();
+    const auto& edgeMapper = [this](const unsigned long& e) -> const Edge& {
+        return *m_edges[e];
     };
     const auto& edgeFilter = [v1, v2](const Edge& edge) {
-        return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
+        return ((edge.getVertex1() == v1 && edge.getVertex2() == v2) || (edge.getVertex1() == v2 && edge.getVertex2() == v1));
     };
 
     return adjacentEdges |
-- 
2.43.0


From d9c43db1db322050aa1ea6699e323ae93bfa100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 47/52] fix: keep the booleans of different variants in
 different memory locations

A std::vector<bool> packs the values of several variants in one word, so
threads writing distinct variants lost each other's updates.
---
 include/powsybl/iidm/DanglingLineGeneration.hpp | 3 ++-
 include/powsybl/iidm/Generator.hpp              | 3 ++-
 include/powsybl/iidm/ShuntCompensator.hpp       | 3 ++-
 include/powsybl/iidm/Switch.hpp                 | 5 +++--
 include/powsybl/iidm/TapChanger.hpp             | 3 ++-
 include/powsybl/iidm/VscConverterStation.hpp    | 4 +++-
 src/iidm/BusTerminal.hpp                        | 3 ++-
 7 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/DanglingLineGeneration.hpp b/include/powsybl/iidm/DanglingLineGeneration.hpp
index 4ece846..be512fd 100644
--- a/include/powsybl/iidm/DanglingLineGeneration.hpp
+++ b/include/powsybl/iidm/DanglingLineGeneration.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_DANGLINGLINEGENERATION_HPP
 #define POWSYBL_IIDM_DANGLINGLINEGENERATION_HPP
 
+#include <deque>
 #include <set>
 #include <vector>
 
@@ -79,7 +80,7 @@ private:
 
     std::vector<double> m_targetV;
 
-    std::vector<bool> m_voltageRegulationOn;
+    std::deque<bool> m_voltageRegulationOn;
 };
 
 }  // namespace dangling_line
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index d360bc7..a728bad 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_GENERATOR_HPP
 #define POWSYBL_IIDM_GENERATOR_HPP
 
+#include <deque>
 #include <functional>
 
 #include <powsybl/iidm/EnergySource.hpp>
@@ -99,7 +100,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_activePowerSetpoint;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 821c02d..f0b143f 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_SHUNTCOMPENSATOR_HPP
 #define POWSYBL_IIDM_SHUNTCOMPENSATOR_HPP
 
+#include <deque>
 #include <functional>
 #include <vector>
 
@@ -90,7 +91,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_targetV;
 
diff --git a/include/powsybl/iidm/Switch.hpp b/include/powsybl/iidm/Switch.hpp
index 9a0d39c..d08add1 100644
--- a/include/powsybl/iidm/Switch.hpp
+++ b/include/powsybl/iidm/Switch.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_SWITCH_HPP
 #define POWSYBL_IIDM_SWITCH_HPP
 
+#include <deque>
 #include <vector>
 
 #include <powsybl/iidm/Identifiable.hpp>
@@ -63,9 +64,9 @@ private:
 
     SwitchKind m_kind;
 
-    std::vector<bool> m_open;
+    std::deque<bool> m_open;
 
-    std::vector<bool> m_retained;
+    std::deque<bool> m_retained;
 };
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a738d54..1bd612b 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_TAPCHANGER_HPP
 #define POWSYBL_IIDM_TAPCHANGER_HPP
 
+#include <deque>
 #include <functional>
 #include <map>
 #include <set>
@@ -103,7 +104,7 @@ private:
 
     std::vector<long> m_tapPosition;
 
-    std::vector<bool> m_regulating;
+    std::deque<bool> m_regulating;
 
     std::vector<double> m_targetDeadband;
 
diff --git a/include/powsybl/iidm/VscConverterStation.hpp b/include/powsybl/iidm/VscConverterStation.hpp
index d3a49d5..0bd4634 100644
--- a/include/powsybl/iidm/VscConverterStation.hpp
+++ b/include/powsybl/iidm/VscConverterStation.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VSCCONVERTERSTATION_HPP
 #define POWSYBL_IIDM_VSCCONVERTERSTATION_HPP
 
+#include <deque>
+
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/ReactiveLimitsHolder.hpp>
 
@@ -49,7 +51,7 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    std::vector<bool> m_voltageRegulatorOn;
+    std::deque<bool> m_voltageRegulatorOn;
 
     std::vector<double> m_reactivePowerSetpoint;
 
diff --git a/src/iidm/BusTerminal.hpp b/src/iidm/BusTerminal.hpp
index ae19e82..49c0da1 100644
--- a/src/iidm/BusTerminal.hpp
+++ b/src/iidm/BusTerminal.hpp
@@ -8,6 +8,7 @@
 #ifndef POWSYBL_IIDM_BUSTERMINAL_HPP
 #define POWSYBL_IIDM_BUSTERMINAL_HPP
 
+#include <deque>
 #include <iosfwd>
 #include <set>
 #include <string>
@@ -81,7 +82,7 @@ protected: // MultiVariantObject
     void reduceVariantArraySize(unsigned long number) override;
 
 private:
-    std::vector<bool> m_connected;
+    std::deque<bool> m_connected;
 
     std::vector<std::string> m_connectableBusId;
 
-- 
2.43.0


From 85bcabd4be9abddf8ad6cbe587836c5ef073aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 48/52] fix: keep the type searched for in the lazy listings of
 the measurements

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From a2141d02ac22afac96ea3720bd7aa3d69c69a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 49/52] fix: allow to move a network that has an extension of
 its own

---
 include/powsybl/iidm/Extension.hpp | 2 ++
 src/iidm/Extendable.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index e86363a..7f94f98 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -53,6 +53,8 @@ protected:
     explicit Extension(Extendable& extendable);
 
 private:
+    friend class Extendable;
+
     virtual void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const = 0;
 
 private:
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..afcbad5 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -21,8 +21,9 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByName(std::move(extendable.m_extensionsByName)),
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
 
+    // the checks of setExtendable do not apply here: the extensions follow their extendable, which is not fully constructed yet
     for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
+        it.second->m_extendable = stdcxx::ref(*this);
     }
 }
 
-- 
2.43.0


From 1560b97eff51f53b92905a64a7d909623be389ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 50/52] fix: compute the admittance of a branch whose ratio is
 negative without std::polar

---
 src/iidm/util/LinkData.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iidm/util/LinkData.cpp b/src/iidm/util/LinkData.cpp
index 0a7478d..6452b85 100644
--- a/src/iidm/util/LinkData.cpp
+++ b/src/iidm/util/LinkData.cpp
@@ -7,6 +7,8 @@
 
 #include <powsybl/iidm/util/LinkData.hpp>
 
+#include <cmath>
+
 namespace powsybl {
 
 namespace iidm {
@@ -15,8 +17,8 @@ namespace LinkData {
 
 BranchAdmittanceMatrix calculateBranchAdmittance(double r, double x, double ratio1, double angle1,
                                                  double ratio2, double angle2, const std::complex<double>& ysh1, const std::complex<double>& ysh2) {
-    std::complex<double> a1 = std::polar(ratio1, angle1);
-    std::complex<double> a2 = std::polar(ratio2, angle2);
+    std::complex<double> a1(ratio1 * std::cos(angle1), ratio1 * std::sin(angle1));
+    std::complex<double> a2(ratio2 * std::cos(angle2), ratio2 * std::sin(angle2));
 
     std::complex<double> ytr;
     if (r != 0.0 || x != 0.0) {
-- 
2.43.0


From 66f7efd81a1d74edb7e29d45a850d5287a2b677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 51/52] fix: report a missing boolean or unsigned attribute of
 a document as such

getAttributeValue<bool> and getAttributeValue<unsigned long> built a string from a null pointer when the attribute was missing.
---
 src/xml/XmlStreamReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..ef7cbd5 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -63,7 +63,7 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
 template <>
 bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     const std::string& booleanStr = XML2S(value.get());
     return boost::iequals(booleanStr, "true");
 }
@@ -88,7 +88,7 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     return std::stoul(XML2S(value.get()));
 }
 
-- 
2.43.0


From a64052ed2806125b37bc3abe97aab2d5b9a5bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:18 +0000
Subject: [PATCH 52/52] fix: list the objects of a type without writing to the
 index

Reading the objects of a type of which the network never had any inserted
an empty list: two threads reading at the same time raced.
---
 include/powsybl/iidm/NetworkIndex.hpp | 5 ++++-
 include/powsybl/iidm/NetworkIndex.hxx | 8 ++------
 src/iidm/NetworkIndex.cpp             | 7 +++++++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hpp b/include/powsybl/iidm/NetworkIndex.hpp
index e48e555..3665d16 100644
--- a/include/powsybl/iidm/NetworkIndex.hpp
+++ b/include/powsybl/iidm/NetworkIndex.hpp
@@ -84,10 +84,13 @@ private:
 
     using IdentifiablesByType = std::unordered_map<std::type_index, Identifiables>;
 
+private:
+    const Identifiables& getIdentifiables(const std::type_index& type) const;
+
 private:
     IdentifiableById m_objectsById;
 
-    mutable IdentifiablesByType m_objectsByType;
+    IdentifiablesByType m_objectsByType;
 
     std::map<std::string, std::string> m_idByAlias;
 };
diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index ca15f46..68c04b1 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -96,20 +96,16 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>();
 
 template <typename T, typename U>
 stdcxx::const_range<U> NetworkIndex::getAll() const {
-    const auto& it = m_objectsByType[typeid(T)];
-
     const auto& mapper = map<const U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return getIdentifiables(typeid(T)) | boost::adaptors::transformed(mapper);
 }
 
 template <typename T, typename U>
 stdcxx::range<U> NetworkIndex::getAll() {
-    auto& it = m_objectsByType[typeid(T)];
-
     const auto& mapper = map<U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return getIdentifiables(typeid(T)) | boost::adaptors::transformed(mapper);
 }
 
 template <typename T>
diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index a0b57da..479c9b2 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -142,6 +142,13 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>() {
     return boost::range::join(getAll<BusBreakerVoltageLevel, VoltageLevel>(), getAll<NodeBreakerVoltageLevel, VoltageLevel>());
 }
 
+const NetworkIndex::Identifiables& NetworkIndex::getIdentifiables(const std::type_index& type) const {
+    static const Identifiables s_none;
+
+    const auto& it = m_objectsByType.find(type);
+    return it != m_objectsByType.end() ? it->second : s_none;
+}
+
 template <>
 unsigned long NetworkIndex::getObjectCount<Identifiable>() const {
     return m_objectsById.size();
-- 
2.43.0

