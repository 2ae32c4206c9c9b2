From f5e70e858198039c2235e599e67a2131a427d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 01/62] fix: keep an item alive while it is moved between
 environments

attachItem() dropped the pointer returned by detach(), which destroyed the
item if the previous environment was its only owner. Also check for an id
clash before the item is taken away from its environment.
---
 src/core/Environment.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..e76e262 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -286,17 +286,19 @@ void Environment::attachItem(EnvironmentItem* item)
             item->unique_id = candidate;
         }
     }
-    else if( item->getEnvironment() != this )
-    {
-	// if it comes from a different environment, it
-	// needs to be detached first
-	item->detach();
-    }
 
     // make sure item not already present
     if( items.count(item->getUniqueId()) ) {
 	throw runtime_error("unique_id of item already in environment. " + item->getUniqueId() );
     }
+
+    // if it comes from a different environment, it needs to be detached first.
+    // Hold on to the returned pointer, since the other environment may have had
+    // the only reference on the item.
+    EnvironmentItem::Ptr itemPtr;
+    if( item->isAttached() )
+	itemPtr = item->detach();
+
     // add item to internal list
     items[item->getUniqueId()] = item;
    
-- 
2.43.0


From d089bfb724518660e610d5c140138e90faed4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 02/62] fix: recognise existing layer, input and output
 relations

Only the first entry of the multimap was compared, so that repeated calls
stored the same relation several times.
---
 src/core/Environment.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index e76e262..17c98fc 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -425,13 +425,25 @@ void Environment::addChild(FrameNode* parent, FrameNode* child)
     handle( Event( event::FRAMENODE_TREE, event::ADD, parent, child ) );
 }
 
+// check if the relation a, b is one of the (possibly many) entries for a
+template <class T>
+static bool hasRelation(const T& graph, typename T::key_type a, typename T::mapped_type b)
+{
+    std::pair<typename T::const_iterator, typename T::const_iterator> range = graph.equal_range( a );
+    for( typename T::const_iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == b )
+	    return true;
+    }
+    return false;
+}
+
 void Environment::addChild(Layer* parent, Layer* child)
 {
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
+    if( hasRelation( layerTree, child, parent ) )
 	return;
     
     if( !child->isAttached() )
@@ -611,8 +623,7 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
+    if( hasRelation( operatorGraphInput, op, input ) )
 	return false;
     
     if( !op->isAttached() )
@@ -629,8 +640,7 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
+    if( hasRelation( operatorGraphOutput, op, output ) )
 	return false;
 
     if( !op->isAttached() )
-- 
2.43.0


From cc4f93a6eb9bc1f2e321ef5de473979d901a0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 03/62] fix: don't announce the removal of layer relations that
 don't exist

---
 src/core/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 17c98fc..21e23c4 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -473,14 +473,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From c06b4cb8eb0bcc32f55bf68a2c1a2cf07394dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 04/62] fix: pass the complete environment to handlers on
 (un)registration

The layer tree and frame trees that are not connected to the root node were
not published to new event handlers, and neither these nor the maps attached
to the root node were taken back on removal of the handler.
---
 src/core/Environment.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 21e23c4..db75c6a 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -186,14 +186,27 @@ void Environment::addEventHandler(EventHandler *handler)
     //set root node
     handler->receive( Event( event::ROOT, event::ADD, getRootNode() ) );
     
-    //iterate over frame tree
+    //iterate over frame tree, and over the trees which are not connected to
+    //the root node
     publishChilds(handler, getRootNode());    
+    std::vector<FrameNode*> nodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = nodes.begin(); it != nodes.end(); it++)
+    {
+	if( *it != getRootNode() && !getParent(*it) )
+	    publishChilds(handler, *it);
+    }
 
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
     {
 	handler->receive( Event( event::FRAMENODE, event::ADD, it->first, it->second ) );
     }
+
+    //publish connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
     
     eventHandlers.addEventHandler(handler);
 }
@@ -224,8 +237,25 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
-    //reverse iterate over the frame node tree and detach all children    
-    detachChilds(getRootNode(), handler);
+    //remove connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+
+    //reverse iterate over the frame node trees and detach all children    
+    std::vector<FrameNode*> nodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = nodes.begin(); it != nodes.end(); it++)
+    {
+	if( getParent(*it) )
+	    continue;
+
+	detachChilds(*it, handler);
+
+	std::list<CartesianMap*> maplist = getMaps(*it);
+	for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++)
+	    handler->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, *it ) );
+    }
     
     //remove root node
     handler->receive( Event( event::ROOT, event::REMOVE, getRootNode() ) );
-- 
2.43.0


From f241b9d7b9e9da63c1f093d4fbdd574bad7234b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 05/62] fix: don't lose the content of an item that replaces a
 removed one

Queued REMOVE and ADD events for the same item id cancelled each other, so
that the receiver kept the content of the removed item.
---
 src/core/Event.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..cc68891 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,6 +63,15 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
+    // an item which is added after having been removed may have different
+    // content, so it needs to be transferred as an update
+    if( type == event::ITEM && operation == event::ADD && other.type == event::ITEM && other.operation == event::REMOVE
+	&& id_a == other.id_a && id_b == other.id_b )
+    {
+	operation = event::UPDATE;
+	return event::INVALIDATE;
+    }
+
     // adding and removing will cancel each other, if the events are otherwise the same
     if( ((operation == event::REMOVE && other.operation == event::ADD)
         || (operation == event::ADD && other.operation == event::REMOVE))
-- 
2.43.0


From 9b963d693112f12e78bfcd5f560868b99670fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 06/62] fix: don't emit an update event without an item

Applying an update for an item that does not exist attaches it, which already
emits an event; the additional update event had no item.
---
 src/core/Event.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index cc68891..0bb39af 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -140,6 +140,7 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -151,8 +152,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 0cbb4b780f777fb3ae14169b7a3ae27e0008f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 07/62] fix: detachFromOperator() has to remove the output
 relation

isGenerated() is documented to be false afterwards.
---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From 07ba90cd68c66e0d658cbe94fc664aed3b0d2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 08/62] fix: reset the dirty flag in updateFromOperator()

isDirty() is documented to be false after the call, and the operator was run
again with each call.
---
 src/core/Layer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..eebdbf5 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -121,6 +121,8 @@ void Layer::updateFromOperator()
 {
     if( isGenerated() && isDirty() )
         getGenerator()->updateAll();
+
+    resetDirty();
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From 8cf40090d4df6ca6f2efbdf80bc27a66b13d4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 09/62] fix: copy the label together with an item

Clones lost their label, and updates of an item did not transfer it.
---
 src/core/Environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index db75c6a..e6e26b1 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -36,12 +36,13 @@ EnvironmentItem::EnvironmentItem(Environment* envPtr)
 }
 
 EnvironmentItem::EnvironmentItem(const EnvironmentItem& item)
-    : ref_count(0), unique_id( Environment::ITEM_NOT_ATTACHED ), env(NULL)
+    : ref_count(0), unique_id( Environment::ITEM_NOT_ATTACHED ), label( item.label ), env(NULL)
 {
 }
 
 EnvironmentItem& EnvironmentItem::operator=(const EnvironmentItem& other)
 {
+    label = other.label;
     return *this;
 }
 
-- 
2.43.0


From fd21cf2a1094d451da409381c9744adf5a275982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:25 +0000
Subject: [PATCH 10/62] fix: don't limit the description of a transferred item
 to 10000 bytes

---
 src/core/Serialization.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..650524d 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -756,6 +756,14 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     return item;
 }
 
+// write handler, which appends the output of the yaml emitter to a vector
+static int appendToVector(void* data, unsigned char* buffer, size_t size)
+{
+    std::vector<uint8_t>* out = static_cast<std::vector<uint8_t>*>( data );
+    out->insert( out->end(), buffer, buffer + size );
+    return 1;
+}
+
 bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBinaryEvent& bin_item)
 {
     assert(item);
@@ -767,10 +775,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
-    bin_item.yamlProperties.resize(10000,0);
-    size_t size_written = 0;
-    yaml_emitter_set_output_string(&yamlSerialization->emitter, reinterpret_cast<unsigned char*>(bin_item.yamlProperties.data()),
-                                   bin_item.yamlProperties.size(), &size_written);
+    yaml_emitter_set_output(&yamlSerialization->emitter, appendToVector, &bin_item.yamlProperties);
     
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
@@ -790,7 +795,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // write yaml document to yaml stream
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-    bin_item.yamlProperties.resize(size_written,0);
     
     // fill binary streams
     for(std::map<std::string, std::stringstream*>::iterator it = stringstreams.begin(); it != stringstreams.end(); it++)
-- 
2.43.0


From 90477924d2005189b70900e886632696a0a8590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:56 +0000
Subject: [PATCH 11/62] fix: initialise the memory pool in the ListGrid copy
 constructor

The assignment operator used by the copy constructor deletes the pool it
finds in the object, which was an uninitialised pointer.
---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From 648ecf8adef22888ab4c716e7162d0c88f67f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:56 +0000
Subject: [PATCH 12/62] fix: keep the back reference of moved lists in
 ListGrid::move

The first item of each list still referred to the cell it was moved out
of, so that erasing it after a move changed another cell and left a
dangling pointer in its own.
---
 src/tools/ListGrid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..657e980 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,8 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    if( cells[newX][newY] )
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From 9d4cda7dd0a3d391ae8e2e255df84aed7339dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:02 +0000
Subject: [PATCH 13/62] fix: refuse lookups one cell behind the BoxLookUpTable

The index of the cell right behind the last one passed the range check,
so that the distance was read from another row or from behind the table.
---
 src/tools/BoxLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..f9e2222 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -122,7 +122,7 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     int x = (xp + centerX) / scale;
     int y = (yp + centerY) / scale;
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From 794e27128f311ba0677e9714f88d72a0c66f0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:02 +0000
Subject: [PATCH 14/62] fix: cover the whole radius with the RadialLookUpTable

The table had no entries for the offset +maxRadius/scale (and, depending
on the fraction, for smaller ones), so that looking them up returned the
value of another offset or read behind the table.
---
 src/tools/RadialLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/RadialLookUpTable.cpp b/src/tools/RadialLookUpTable.cpp
index 8a2e28b..e8347f5 100644
--- a/src/tools/RadialLookUpTable.cpp
+++ b/src/tools/RadialLookUpTable.cpp
@@ -15,8 +15,8 @@ void RadialLookUpTable::recompute(double scale, double maxRadius)
     
     this->maxRadius = maxRadius;
     this->scale = scale;
-    numElementsPerLine = maxRadius / scale * 2;
     numElementsPerLineHalf = maxRadius / scale;
+    numElementsPerLine = numElementsPerLineHalf * 2 + 1;
 
     computeAngles();
     computeDistances();
-- 
2.43.0


From fff1526f66e5c2d70fc594370f72718d08605a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:11 +0000
Subject: [PATCH 15/62] fix: compute the distance of all cells of the
 BoxLookUpTable

Cells which the area covers by less than a sampling step got no sample
and reported a distance of 0, as if they were inside the box.
---
 src/tools/BoxLookUpTable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index f9e2222..d00b631 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -62,13 +62,16 @@ void BoxLookUpTable::computeDistances()
         }
     }
     
-    for(double x = -(sizeXHalf + maxDistFromBox); x < (sizeXHalf + maxDistFromBox); x+= scale / 10.0)
+    // one step further than the area, so that the cells which the area 
+    // covers by less than a step are computed too
+    const double step = scale / 10.0;
+    for(double x = -(sizeXHalf + maxDistFromBox); x < (sizeXHalf + maxDistFromBox + step); x+= step)
     {        
         int xi = (x + centerX) / scale;
         if(xi < 0 || xi >= cellSizeX)
             continue;
         
-        for(double y = -(sizeYHalf + maxDistFromBox); y < (sizeYHalf + maxDistFromBox); y+= scale / 10.0)
+        for(double y = -(sizeYHalf + maxDistFromBox); y < (sizeYHalf + maxDistFromBox + step); y+= step)
         {
             int yi = (y + centerY) / scale;
 
-- 
2.43.0


From bfc883c9ef7826b10549ba80a51ed3c65364953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:30 +0000
Subject: [PATCH 16/62] fix: normalise the Gaussian density by the determinant

The density has to be divided by the root of the determinant. It was
multiplied with it, so that it did not integrate to one and expectation
maximization preferred wide components.
---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..c785184 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
-- 
2.43.0


From b2e8af3c746244492feb0da47742c1a8c5e318b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:30 +0000
Subject: [PATCH 17/62] fix: weight the components when evaluating a
 GaussianMixture

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index c785184..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From c9b55545da112fad7b460f17319d8a4b3923b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:01 +0000
Subject: [PATCH 18/62] fix: leave out k-means classes without samples

A class which loses all its samples got a mean of 0/0. The NaN went into
the tree the nearest class is looked up in and, as mean and covariance of
a cluster, into the mixture that is initialised from the result.
---
 src/tools/ExpectationMaximization.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 1f6a77f..760f0e4 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -92,9 +92,12 @@ public:
 	}
 
 	// store the means in the kdtree
+	// classes which have lost all their samples don't have a mean
 	kdtree.clear();
 	for( size_t j=0; j<numClasses; j++ )
 	{
+	    if( !(sum[j] > 0) )
+		continue;
 	    means[j] /= sum[j];
 	    kdtree.insert( Sample( j, means[j]) );
 	}
@@ -128,9 +131,11 @@ public:
 	    stats[index[i]].insert( samples[i], hasWeights ? weights[i] : 1.0 );
 
 	// and calc mean and covariance
-	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res( means.size() );
+	// leave out classes which don't have any samples
+	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res;
 	for( size_t j=0; j<means.size(); j++ )
-	    res[j] = stats[j].update();
+	    if( stats[j].sum > 0 )
+		res.push_back( stats[j].update() );
 	return res;
     }
 };
-- 
2.43.0


From e0dff8ce89d5ef30724d1eeae54f0a6f45588f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:01 +0000
Subject: [PATCH 19/62] fix: reset the class assignment when KMeans is
 initialised again

With the assignment of an earlier run left over, run() could stop right
away, with the initial samples as means instead of those of the classes.
---
 src/tools/ExpectationMaximization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 760f0e4..f6c8a1a 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -62,7 +62,7 @@ public:
 
 	// create index which stores class assignment for each 
 	// sample. assign evenly in the beginning
-	index.resize( s.size(), 0 );
+	index.assign( s.size(), 0 );
 
 	// initialize the means kdtree and array
 	kdtree.clear();
-- 
2.43.0


From 77cd1e7dd76bc46e7620d7a29e76ce6062b1ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:16 +0000
Subject: [PATCH 20/62] fix: make const access to metadata compile

---
 src/core/Holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..7fbf498 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -70,7 +70,7 @@ namespace envire
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        return *dynamic_cast< Holder<T> const* >(this)->getData();
     }
 }
 
-- 
2.43.0


From e9f2d9bbd59d1e9cbb10c40be12e40f6d76d7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:16 +0000
Subject: [PATCH 21/62] fix: throw when metadata is requested with the wrong
 type

---
 src/core/Holder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 7fbf498..a2e6aae 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -1,6 +1,7 @@
 #ifndef ENVIRE_HOLDER__
 #define ENVIRE_HOLDER__
 
+#include <stdexcept>
 #include <boost/noncopyable.hpp>
 
 namespace envire
@@ -64,13 +65,19 @@ namespace envire
     }
     template <typename T> T& HolderBase::get()
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T>* myself = dynamic_cast< Holder<T>* >(this);
+        if( !myself )
+            throw std::runtime_error("metadata is not of the requested type");
+        return *myself->getData();
     }
 
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T> const* >(this)->getData();
+        Holder<T> const* myself = dynamic_cast< Holder<T> const* >(this);
+        if( !myself )
+            throw std::runtime_error("metadata is not of the requested type");
+        return *myself->getData();
     }
 }
 
-- 
2.43.0


From e03546f49900adba15182d7120b6d6e91c332e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 22/62] fix: do not strip a character when looking up a class
 without a namespace

---
 src/core/SerializationFactory.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/SerializationFactory.cpp b/src/core/SerializationFactory.cpp
index 178e317..37f55fd 100644
--- a/src/core/SerializationFactory.cpp
+++ b/src/core/SerializationFactory.cpp
@@ -27,9 +27,13 @@ EnvironmentItem* SerializationFactory::createObject( const std::string& classNam
 	f = classMap[className];
     else 
     {
-	std::string name = className.substr( className.rfind("::") + 2 );
-	if( classMap.count( name ) )
-	    f = classMap[name];
+	const std::string::size_type pos = className.rfind("::");
+	if( pos != std::string::npos )
+	{
+	    std::string name = className.substr( pos + 2 );
+	    if( classMap.count( name ) )
+		f = classMap[name];
+	}
     }
 
     if( !f )
-- 
2.43.0


From f1203bd47bb2f112489745abb56cb743f1ee2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 23/62] fix: sign of the lever arm in the inverse of an
 uncertain transform

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..395ab7e 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -279,7 +279,7 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
     J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+	-drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From 02f4a7da77267ae8628e10e2e9f40605ee99bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 24/62] fix: initialise all coordinates of the corners in
 getExtentsTransformed

---
 src/Core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core.hpp b/src/Core.hpp
index 8c4dd45..958d05f 100644
--- a/src/Core.hpp
+++ b/src/Core.hpp
@@ -128,7 +128,7 @@ namespace envire
 	    // go through all the permutations to get the corners
 	    for( int i=0; i<pow(2,DIMENSION); i++ )
 	    {
-		Eigen::Vector3d corner;
+		Eigen::Vector3d corner( Eigen::Vector3d::Zero() );
 		for( int j=0; j<DIMENSION; j++ )
 		    corner[j] = (i>>j)&1 ? pc_extents.min()[j] : pc_extents.max()[j];
 		corners.push_back( corner );
-- 
2.43.0


From 705ea2653d266be1e45fc4e48abae4aa5ab7a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:19 +0000
Subject: [PATCH 25/62] fix: compare coordinates with the grid before
 converting them to an index

---
 src/maps/GridBase.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..e6313f8 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,9 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // compare before converting, as not all values fit into an index
+    const double am = floor((x-offsetx)/scalex);
+    const double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +416,11 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    // compare before converting, as not all values fit into an index
+    const double am = floor(((x-offsetx)/scalex)*multiplier);
+    const double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if((0 <= am) && (am < (cellSizeX * multiplier)) && (0 <= an) && (an < (cellSizeY * multiplier)))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From 1359b1fab3291f8aceb62593828c8b1419f3d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 26/62] fix: extents of a grid are not one cell larger than the
 grid

---
 src/maps/GridBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index e6313f8..90b7e8e 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -493,7 +493,8 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    // the extents include the last cell
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) - Eigen::Vector2i::Ones() );
 }
 
 template<typename T>
-- 
2.43.0


From d1e01a9f4b9631c5774276fdeb75b7fb214c0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 27/62] fix: round to the nearest cell in isCellAlignedWith and
 take the orientation into account

---
 src/maps/GridBase.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 90b7e8e..22f2b2d 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -602,16 +602,19 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
         getScaleY() != grid.getScaleY() )
 	return false;
 
-    // see if the difference of the world position of the 0 grid cells is a
-    // multiple of the cell scale
-    Eigen::Vector3d rootDiff = 
-	fromGrid( 0, 0, getEnvironment()->getRootNode() )
-	 -grid.fromGrid( 0, 0, grid.getEnvironment()->getRootNode() );
-    Eigen::Vector3d cellDiff = 
-	(rootDiff.array() * Eigen::Array3d( 1.0/getScaleX(), 1.0/getScaleY(), 0 )).matrix();
-
-    if( !(cellDiff.cast<int>().cast<double>() - cellDiff).isZero() )
-	return false;
+    // see if the corner cells of the other grid are a whole number of cells
+    // away from our 0 grid cell
+    const Transform tf = getEnvironment()->relativeTransform(&grid, this);
+    for( int i=0; i<3; i++ )
+    {
+	const size_t xi = i == 1 ? std::max( grid.getCellSizeX(), size_t(1) ) : 0;
+	const size_t yi = i == 2 ? std::max( grid.getCellSizeY(), size_t(1) ) : 0;
+	const Eigen::Vector3d diff = tf * grid.fromGrid( xi, yi ) - fromGrid( 0, 0 );
+	const Eigen::Vector2d cellDiff( diff.x() / getScaleX(), diff.y() / getScaleY() );
+	const Eigen::Vector2d rounded( rint( cellDiff.x() ), rint( cellDiff.y() ) );
+	if( !(rounded - cellDiff).isZero( 1e-6 ) )
+	    return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 93dbbc07e9d9d022ada3d460058de91c3e10bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:20 +0000
Subject: [PATCH 28/62] fix: compare all corners of the grids, in cells, in
 isAlignedWith

---
 src/maps/GridBase.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 22f2b2d..eab12cc 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -622,18 +622,21 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
 bool GridBase::isAlignedWith(GridBase const& grid) const
 {
     if (getCellSizeX() != grid.getCellSizeX() ||
-        getCellSizeY() != grid.getCellSizeY() ||
-        getOffsetX() != grid.getOffsetX() ||
-        getOffsetY() != grid.getOffsetY())
+        getCellSizeY() != grid.getCellSizeY())
         return false;
 
-    Transform tf = getEnvironment()->relativeTransform(this, &grid);
-    base::Vector3d p(grid.getCellSizeX(), grid.getCellSizeY(), 0);
-    p = tf * p;
-    if (rint(p.x()) != grid.getCellSizeX() ||
-            rint(p.y()) != grid.getCellSizeY())
-        return false;
+    // compare the corners of the grids
+    const Transform tf = getEnvironment()->relativeTransform(this, &grid);
+    for( int i=0; i<4; i++ )
+    {
+	const double xi = i & 1 ? getCellSizeX() : 0;
+	const double yi = i & 2 ? getCellSizeY() : 0;
+	const Eigen::Vector3d p = tf * Eigen::Vector3d(
+		xi * getScaleX() + getOffsetX(), yi * getScaleY() + getOffsetY(), 0 );
+	if( !(fabs( p.x() - (xi * grid.getScaleX() + grid.getOffsetX()) ) < 0.5 * grid.getScaleX()) ||
+		!(fabs( p.y() - (yi * grid.getScaleY() + grid.getOffsetY()) ) < 0.5 * grid.getScaleY()) )
+	    return false;
+    }
 
     return true;
 }
-
-- 
2.43.0


From c3813925e2e0bd1fa4549b744a0087b3337edbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:44 +0000
Subject: [PATCH 29/62] fix: MLSGrid::move has to bring patch count, index and
 extents along

---
 src/maps/MLSGrid.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..69a53b1 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -762,5 +762,21 @@ void MLSGrid::initIndex()
 void MLSGrid::move(int x, int y)
 {
     cells.move(x, y);
+
+    // patches may have left the grid, and the others are in different cells
+    // now, so count, index and extents have to be set up again
+    cellcount = 0;
+    extents = CellExtents();
+    if( index )
+	index->reset();
+
+    for(size_t xi=0;xi<cellSizeX;xi++)
+    {
+	for(size_t yi=0;yi<cellSizeY;yi++)
+	{
+	    for( iterator it = beginCell(xi,yi); it != endCell(); it++ )
+		addCell( Position( xi, yi ) );
+	}
+    }
 }
 
-- 
2.43.0


From 57376b0fbe1990bf1826f563a62767f2f2452995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:44 +0000
Subject: [PATCH 30/62] fix: MLSGrid assignment left the index of the previous
 content

---
 src/maps/MLSGrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 69a53b1..891794d 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -54,6 +54,10 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
+
+	// the index refers to the content that has just been replaced
+	if( index )
+	    initIndex();
     }
 
     return *this;
-- 
2.43.0


From 2cb6ce1f72f5ce326839b9d4677da8785899b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 31/62] fix: MLSGrid::match has to carry heights through the
 transform as merge does

---
 src/maps/MLSGrid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 891794d..db85f7f 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -652,7 +652,7 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 	    size_t m, n;
 	    if( toGrid( pos.x(), pos.y(), m, n ) )
 	    {
-		Position pos(m, n);
+		Position cell(m, n);
 		// iterate through cells in source map
 		envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); 
 		if( cit != other.endCell() )
@@ -660,11 +660,11 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 		    while( cit != other.endCell() )
 		    {
 			SurfacePatch meas_patch( *cit );
-			meas_patch.mean += offset.mean;
+			meas_patch.mean += offset.mean + pos.z();
 			meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 			meas_patch.update_idx = offset.update_idx;
 
-			if( get( pos, meas_patch, sigma ) )
+			if( get( cell, meas_patch, sigma ) )
 			{
 			    ++match;
 			    break;
-- 
2.43.0


From f83d16759958cdc64a6b921e1ae847557e431479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:44 +0000
Subject: [PATCH 32/62] fix: cutting a patch at a newer one of the other kind
 must not grow it or turn it inside out

---
 src/maps/MLSPatch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..f22c8ca 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -316,7 +316,7 @@ struct SurfacePatch
 		    {
 			// the new patch fully encloses the old one, 
 			// so will overwrite it
-			if( ro.mean > rp.mean && ro.mean - ro.height < rp.mean - rp.height )
+			if( ro.mean >= rp.mean && ro.mean - ro.height <= rp.mean - rp.height )
 			{
 			    p = ro;
 			    return true; 
@@ -325,7 +325,7 @@ struct SurfacePatch
 			// the other patch is occupied, so cut
 			// the free patch accordingly
 			if( ro.mean < rp.mean )
-			    rp.height = rp.mean - ro.mean;
+			    rp.height = std::min( rp.height, rp.mean - ro.mean );
 			else if( ro.mean - ro.height < rp.mean )
 			{
 			    double new_mean = ro.mean - ro.height;
-- 
2.43.0


From d8b807afe577f56ff91112982a81857b438c0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:50 +0000
Subject: [PATCH 33/62] fix: deviation of a summed up patch grew with its
 height

---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index f22c8ca..a7f35eb 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -80,7 +80,7 @@ struct SurfacePatch
         if( n > 1 )
         {
             float var = 
-                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*(plane.n - 2.0))) * norm - n/plane.n));
+                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*plane.n)) * norm - n/plane.n));
             stdev = sqrt(var);
         }
         else
-- 
2.43.0


From a222bac6491d642b97dc54c2e32549f95171b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:48 +0000
Subject: [PATCH 34/62] fix: ranges overlap also when the second one encloses
 the first

---
 src/maps/MLSPatch.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index a7f35eb..27d3911 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -11,9 +11,7 @@ namespace envire
 template <class T>
 inline bool overlap( T a1, T a2, T b1, T b2 )
 {
-    return 
-	((a1 < b2) && (a2 > b2)) ||
-	((a1 < b1) && (a2 > b1));
+    return (a1 < b2) && (a2 > b1);
 }
 
 
-- 
2.43.0


From 7e34db41124cc300485b906986beb3357e090158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:29 +0000
Subject: [PATCH 35/62] fix: order the corners of inner and outer rectangle
 separately in forEachInRectangles

---
 src/maps/GridBase.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index eab12cc..a3006cf 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -142,21 +142,16 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
     std::vector<envire::GridBase::Position> leftOut;
     std::vector<envire::GridBase::Position> rightOut;
     
+    // a small inner rectangle does not tell how the outer one is oriented
     if(upRight_g.y > downRight_g.y)
     {
         //points of left side
         lineBresenham(upRight_g, upLeft_g, leftIn);
         lineBresenham(upLeft_g, downLeft_g, leftIn);
 
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-        lineBresenham(upLeftOut, downLeftOut, leftOut);
-
         //points of right side
         lineBresenham(upRight_g, downRight_g, rightIn);
         lineBresenham(downRight_g, downLeft_g, rightIn);
-
-        lineBresenham(upRightOut, downRightOut, rightOut);
-        lineBresenham(downRightOut, downLeftOut, rightOut);
     }
     else
     {
@@ -164,12 +159,23 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(downRight_g, upRight_g, leftIn);
         lineBresenham(upRight_g, upLeft_g, leftIn);
 
-        lineBresenham(downRightOut, upRightOut, leftOut);
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-
         //points of right side
         lineBresenham(downRight_g, downLeft_g, rightIn);
         lineBresenham(downLeft_g, upLeft_g, rightIn);
+    }
+
+    if(upRightOut.y > downRightOut.y)
+    {
+        lineBresenham(upRightOut, upLeftOut, leftOut);
+        lineBresenham(upLeftOut, downLeftOut, leftOut);
+
+        lineBresenham(upRightOut, downRightOut, rightOut);
+        lineBresenham(downRightOut, downLeftOut, rightOut);
+    }
+    else
+    {
+        lineBresenham(downRightOut, upRightOut, leftOut);
+        lineBresenham(upRightOut, upLeftOut, leftOut);
 
         lineBresenham(downRightOut, downLeftOut, rightOut);
         lineBresenham(downLeftOut, upLeftOut, rightOut);
-- 
2.43.0


From 27a5da1a02c082c895249782b589cb21f1dc66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:48 +0000
Subject: [PATCH 36/62] fix: maximum of a band of negative floating point
 values in getMinMaxValues

---
 src/maps/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..dd19ed0 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -179,7 +179,8 @@ namespace envire
         void getMinMaxValues( const std::string& key, T& min, T& max )
         {
             min = std::numeric_limits<T>::max();
-            max = std::numeric_limits<T>::min();
+            // min() is the smallest positive value for floating point types
+            max = std::numeric_limits<T>::lowest();
 
             ArrayType& a = getGridData( key );
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
-- 
2.43.0


From 1afee707208bd797941fe1e382a4acc02d2a21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 37/62] fix: statistic of a traversability grid has to have
 room for class 255

---
 src/maps/TraversabilityGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..ef66412 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,9 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        const size_t classCount = static_cast<size_t>(std::numeric_limits<uint8_t>::max()) + 1;
+        minDistance.resize(classCount, std::numeric_limits<double>::max());
+        counts.resize(classCount);
     }
 
     /**
-- 
2.43.0


From 31ec00edb24dcc33b575d8ede0508544fba5e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 38/62] fix: search for the worst class did not end when class
 255 is in the rectangle

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..cfe6e42 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
-- 
2.43.0


From e91bc4b7c8f442b895b1244aa996e535c1c70010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 39/62] fix: copies of a traversability grid wrote into the
 bands of the original

---
 src/maps/TraversabilityGrid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index ef66412..70dfa02 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -153,6 +153,12 @@ public:
     {
     };
 
+    /** the cached pointers to the bands must not be taken over from other */
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other), traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From 0eadf7cb591d2e373d9d426a4d2e285db325c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 40/62] fix: TraversabilityClass::isSet was inverted

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 70dfa02..e12628f 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From 2fe999e2b7485a04926678abdd49e53daeabf3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:50 +0000
Subject: [PATCH 41/62] fix: distance tables of the traversability statistic
 have to cover all cells a small rectangle touches

---
 src/maps/TraversabilityGrid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index cfe6e42..355eb99 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -35,13 +35,16 @@ public:
     {
         if(!lut)
             lut = new RadialLookUpTable();
-        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY));
+        //the outermost cells are only touched by the rectangle, their center
+        //may be more than one cell away from it
+        const double margin = 2 * grid.getScaleX();
+        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY) + margin);
 
         if(!boxLut)
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
         //of the roation. Else we get aliasing problems.
-        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2);
+        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2 + margin);
 
         grid.toGrid(pose.position.x(), pose.position.y(), xCenter, yCenter);
     }
-- 
2.43.0


From b05323c9f197c9e48bf30f7c60afd3e868ac1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 42/62] fix: cells that cannot be classified kept the class of
 the previous run in SimpleTraversability

---
 src/operators/SimpleTraversability.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..ca72516 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -166,6 +166,7 @@ bool SimpleTraversability::updateAll()
         {
             // Read the values for this cell. Set to CLASS_UNKNOWN and ignore the cell
             // if one of the available input bands has no information
+            result[y][x] = CLASS_UNKNOWN;
             double values[INPUT_COUNT];
             bool has_value[INPUT_COUNT];
             for (int band_idx = 0; band_idx < INPUT_COUNT; ++band_idx)
-- 
2.43.0


From f24360e3fa8393c0bf6944e8c172e1481f624036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 43/62] fix: mean driveability must not depend on class 7 being
 registered

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index ca72516..2b59376 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -260,8 +260,8 @@ bool SimpleTraversability::updateAll()
         }
     }
 
-    // Traversability class 7 contains the mean driveability (0.55).
-    double mean_driveability = output_layer->getTraversabilityClass(7).getDrivability();
+    // The driveabilities of the custom classes range from 1 / class_count to 1.
+    double mean_driveability = (1.0 / conf.class_count + 1.0) / 2.0;
     uint8_t mean_class_value = counter == 0 ? 0 : sum_classes / counter + 0.5;
     
     // If the map is completely unkown or full with obstacles, 
-- 
2.43.0


From a5c89508f281cf9f8b2338ac7bb6a3d3e3d79014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 44/62] fix: growObstacles has to set the probability of the
 grown cells

---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 2b59376..a0d0272 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -414,7 +414,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 				&& ty >= 0 && ty < (int)map.getHeight() )
                         {
 			    data[ty][tx] = CLASS_OBSTACLE;
-                            probabilityArray[y][x] = std::numeric_limits< uint8_t >::max();
+                            probabilityArray[ty][tx] = std::numeric_limits< uint8_t >::max();
                         }
 		    }
 		}
-- 
2.43.0


From bb5dd93a7367dca592b5170160cd1bdba7abfbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:11 +0000
Subject: [PATCH 45/62] fix: store the obstacle clearance of
 SimpleTraversability

---
 src/operators/SimpleTraversability.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index a0d0272..2417882 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -52,6 +52,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -73,6 +74,7 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 9489143e54f3760774c189c2fd26e4ee30a51cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 46/62] fix: MLSMap::selectActiveGrid aligned a new grid even
 if told not to

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ec6bccf..d8377aa 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -138,7 +138,7 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     else
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
-	createGrid( t, true, true );
+	createGrid( t, true, aligned );
     }
 }
 
-- 
2.43.0


From 470363428bfe24eb0bb6cc88966e3afe92be45d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 47/62] fix: MLSMap::getPatch used outdated transforms and
 grids from its cache

---
 src/maps/MLSMap.cpp | 9 +++++++--
 src/maps/MLSMap.hpp | 3 ---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index d8377aa..98c2624 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -39,6 +39,7 @@ MLSMap& MLSMap::operator=(const MLSMap& other)
 
 	grids = other.grids;
 	active = other.active;
+	cache = Cache();
 
 	if( isAttached() )
 	{
@@ -87,9 +88,14 @@ bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_thresho
 {
     // see if we can use the cache. This will reduce the amount of transform
     // calculations
+    // the frames may have been moved since, so the transform of the cached
+    // grid is not kept
     if( cache.grid )
-	if( ::getPatch( cache.grid, cache.trans, p, patch, sigma_threshold ) )
+    {
+	Transform C_m2g = env->relativeTransform( getFrameNode(), cache.grid->getFrameNode() );
+	if( ::getPatch( cache.grid, C_m2g, p, patch, sigma_threshold ) )
 	    return true;
+    }
 
     // go backwards in the list, and try to find the point in any of the grids
     for( std::vector<MLSGrid::Ptr>::reverse_iterator it = grids.rbegin(); it != grids.rend(); it++ )
@@ -99,7 +105,6 @@ bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_thresho
 	if( ::getPatch( grid, C_m2g, p, patch, sigma_threshold ) )
 	{
 	    cache.grid = it->get();
-	    cache.trans = C_m2g;
 	    return true;
 	}
     }
diff --git a/src/maps/MLSMap.hpp b/src/maps/MLSMap.hpp
index 806bd47..a826ff7 100644
--- a/src/maps/MLSMap.hpp
+++ b/src/maps/MLSMap.hpp
@@ -75,11 +75,8 @@ public:
 protected:
     struct Cache
     {
-     public:
-        EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 	Cache() : grid( NULL ) {}
 	MLSGrid* grid;
-	Transform trans;
     };
 
     Cache cache;
-- 
2.43.0


From 7becfa01413aa15ce47be43bf6cc688806dd7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 48/62] fix: copying a MLSMap lost what the base classes hold

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 98c2624..f304d3a 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -27,7 +27,7 @@ MLSMap::MLSMap()
 }
 
 MLSMap::MLSMap(const MLSMap& other)
-    : grids( other.grids ), active( other.active )
+    : Map<2>( other ), grids( other.grids ), active( other.active )
 {
 }
 
-- 
2.43.0


From c7f28c3f945f87c6a8fa873446f79111f82558a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 49/62] fix: GridFloatToMLS used the transform between the
 grids the wrong way round

---
 src/operators/GridFloatToMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2d99a33..8907960 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -49,7 +49,7 @@ void GridFloatToMLS::setOutput( MLSGrid* mls )
 template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
-    Transform mls2grid = grid->getEnvironment()->relativeTransform( grid, mls );
+    Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
     
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
-- 
2.43.0


From 7c1ec0753980fde13ec801e5c18d0f9ce93dd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 50/62] fix: GridFloatToMLS looked up the corner of a cell
 instead of its centre

---
 src/operators/GridFloatToMLS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 8907960..5032f83 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -59,10 +59,11 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
-        double y = mls->getScaleY() * yi + mls->getOffsetY();
         for (size_t xi = 0; xi < mls->getCellSizeX(); ++xi)
         {
-            double x = mls->getScaleX() * xi + mls->getOffsetX();
+            // use the centre of the cell
+            double x, y;
+            mls->fromGrid(xi, yi, x, y);
             Eigen::Vector3d src_p = mls2grid * Eigen::Vector3d(x, y, 0);
             size_t src_xi, src_yi;
             if (!grid->toGrid(src_p.x(), src_p.y(), src_xi, src_yi))
-- 
2.43.0


From e5a09400686792cc4e65cbff6a13a82bf940adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 51/62] fix: heights were put into the other grid without or
 with the wrong offset in GridFloatToMLS and MergeMLS

---
 src/operators/GridFloatToMLS.cpp | 3 ++-
 src/operators/MergeMLS.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 5032f83..967c31c 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -70,7 +70,8 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
-            mls->updateCell(xi, yi, value, 0);
+            // the value is a height in the frame of the source grid
+            mls->updateCell(xi, yi, value - src_p.z(), 0);
         }
     }
 }
diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index f27cdab..564cb66 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -115,7 +115,8 @@ bool MergeMLS::updateAll()
 			for( MLSGrid::iterator cit = input->beginCell(s_pos.x, s_pos.y); cit != input->endCell(); cit++ )
 			{
 			    MLSGrid::SurfacePatch p( *cit );
-			    p.mean += src_pos.z();
+			    // the origin of the output is at src_pos.z() in the input
+			    p.mean -= src_pos.z();
 
 			    output->updateCell( m, n, p );
 			}
-- 
2.43.0


From 145c9bd9db971a1135b77d36436c41583f2baa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 52/62] fix: MLSToGrid accepted an output whose size or scale
 differs in one direction

---
 src/operators/MLSToGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index f1bc13e..62569d4 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -36,9 +36,9 @@ bool MLSToGrid::updateAll()
     Grid<double>& travGrid = *env->getOutput< Grid<double>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From c605d74f86f6ae5a1590ff9f66b40f60bf933fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 53/62] fix: MLSToPointCloud ignored the frame of the
 pointcloud

---
 src/operators/MLSToPointCloud.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/operators/MLSToPointCloud.cpp b/src/operators/MLSToPointCloud.cpp
index afe2ec9..6c908c5 100644
--- a/src/operators/MLSToPointCloud.cpp
+++ b/src/operators/MLSToPointCloud.cpp
@@ -38,6 +38,11 @@ bool MLSToPointCloud::updateAll()
     if(vertical_distance <= 0.0)
 	vertical_distance = 0.1;
     
+    // the points are given in the frame of the pointcloud
+    const FrameNode* target = pointcloud->getFrameNode();
+    if(!target)
+	target = mls_grid->getEnvironment()->getRootNode();
+
     // create pointcloud from mls
     for(size_t x=0;x<mls_grid->getCellSizeX();x++)
     {
@@ -46,7 +51,7 @@ bool MLSToPointCloud::updateAll()
 	    for( MLSGrid::iterator cit = mls_grid->beginCell(x,y); cit != mls_grid->endCell(); cit++ )
 	    {
 		MLSGrid::SurfacePatch p( *cit );
-		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, mls_grid->getEnvironment()->getRootNode());
+		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, target);
 		Eigen::Vector3d point(cellPosWorld);
 		
 		if(p.isHorizontal())
-- 
2.43.0


From 7e8edb66a4f7189055e92b897de41e695adab778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 54/62] fix: don't read a point from a text without further
 points

---
 src/maps/Pointcloud.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 09d6083..03eca71 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -91,7 +91,10 @@ bool Pointcloud::readText(std::istream& is, int sample, TextFormat format)
 	if( sample == 1 || (rand() % sample == 0) )
 	{
 	    double x, y, z, c;
-	    is >> x >> y >> z;
+	    // there is no further point, e.g. in an empty file or after
+	    // trailing white space
+	    if( !(is >> x >> y >> z) )
+		return is.eof();
 	    if( format == XYZR && color )
 	    {
 		is >> c;
-- 
2.43.0


From b127c02d5acfbb59b500d701e96f5fb0883fd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 55/62] fix: check the size of the attributes, not the
 variances, when cutting attributes

---
 src/operators/CutPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index bb7d9b6..2de614c 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -122,7 +122,7 @@ bool CutPointcloud::updateAll(){
                 target_vertex_normal_data->push_back( normal_rot * source_vertex_normal_data->at(i) );
             if(source_vertex_color_data && source_vertex_color_data->size() > i)
                 target_vertex_color_data->push_back( source_vertex_color_data->at(i) );
-            if(source_vertex_attributes_data && source_vertex_variance_data->size() > i)
+            if(source_vertex_attributes_data && source_vertex_attributes_data->size() > i)
                 target_vertex_attributes_data->push_back( source_vertex_attributes_data->at(i) );
             if(source_vertex_variance_data && source_vertex_variance_data->size() > i)
                 target_vertex_variance_data->push_back( source_vertex_variance_data->at(i) );
-- 
2.43.0


From 7b0449f46063f0dfba102c8116c42afce78dd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 56/62] fix: use one type for the vertex attributes everywhere

---
 src/maps/Pointcloud.hpp         | 2 +-
 src/operators/CutPointcloud.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maps/Pointcloud.hpp b/src/maps/Pointcloud.hpp
index fd17de0..2c15b40 100644
--- a/src/maps/Pointcloud.hpp
+++ b/src/maps/Pointcloud.hpp
@@ -57,7 +57,7 @@ namespace envire {
 	    vertices.clear();
 	    if( hasData( VERTEX_COLOR ) ) getVertexData<Eigen::Vector3d>( VERTEX_COLOR ).clear();
 	    if( hasData( VERTEX_NORMAL ) ) getVertexData<Eigen::Vector3d>( VERTEX_NORMAL ).clear();
-	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<attr_flag>( VERTEX_ATTRIBUTES ).clear();
+	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<vertex_attr>( VERTEX_ATTRIBUTES ).clear();
 	    if( hasData( VERTEX_VARIANCE ) ) getVertexData<double>( VERTEX_VARIANCE ).clear();
 	};
 
diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index 2de614c..c33d87b 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -80,11 +80,11 @@ bool CutPointcloud::updateAll(){
     // get meta data
     std::vector<Eigen::Vector3d> *source_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *source_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *source_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *source_vertex_attributes_data = NULL;
     std::vector<double> *source_vertex_variance_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *target_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *target_vertex_attributes_data = NULL;
     std::vector<double> *target_vertex_variance_data = NULL;
     if( sourcecloud->hasData(Pointcloud::VERTEX_NORMAL) )
     {
@@ -98,8 +98,8 @@ bool CutPointcloud::updateAll(){
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_ATTRIBUTES) )
     {
-        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
-        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
+        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
+        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_VARIANCE) )
     {
-- 
2.43.0


From ea04f0ca086430052a796230db4794826e3762f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 57/62] fix: a new laser scan has no points per line

---
 src/maps/LaserScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 49b8a91..dbffed7 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -13,7 +13,7 @@ using namespace std;
 ENVIRONMENT_ITEM_DEF( LaserScan )
 
 LaserScan::LaserScan()
-    : origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), x_forward( false )
+    : delta_psi(0), origin_psi(0), origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), points_per_line(0), x_forward( false )
 {
 }
 
-- 
2.43.0


From 817c5db199d1707c3ce82c2e9fc936e83abec407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 58/62] fix: don't read a value from the blanks at the end of a
 scan line

---
 src/maps/LaserScan.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index dbffed7..fb4b045 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -154,9 +154,8 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
 
-            while( !iline.eof() ) {
-                int dist;
-                iline >> dist;
+            int dist;
+            while( iline >> dist ) {
                 scanline.ranges.push_back( dist );
             }
 
@@ -176,9 +175,8 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 	    if( dphi != scanline.delta_phi )
 		throw std::runtime_error("remission line does not have the same delta_phi value as prior line statement.");
 
-            while( !iline.eof() ) {
-                float rem;
-                iline >> rem;
+            float rem;
+            while( iline >> rem ) {
                 scanline.remissions.push_back( rem );
             }
 
-- 
2.43.0


From 26e9d3367aecd5a703e649bcbdada743580b12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 59/62] fix: store the forward axis of a laser scan

---
 src/maps/LaserScan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index fb4b045..bc4c3ac 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -150,6 +150,10 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             iline >> center_offset.x() >> center_offset.y() >> center_offset.z();
         }
 
+        if( key == "x_forward" ) {
+            iline >> x_forward;
+        }
+
         if( key == "line" ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
@@ -203,6 +207,8 @@ bool LaserScan::writeScan( std::ostream& os )
 	<< center_offset.x() << " " 
 	<< center_offset.y() << " " 
 	<< center_offset.z() << endl;
+    if( x_forward )
+	os << "x_forward " << x_forward << endl;
 
     for( vector<scanline_t>::iterator it=lines.begin();it!=lines.end();it++)
     {
-- 
2.43.0


From 40c1e60a1bb6fe72834c254935def000dfc1e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 60/62] fix: the first point of a scan can be part of a
 triangle

---
 src/operators/ScanMeshing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1b9a79f..a818a9d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -262,7 +262,7 @@ bool ScanMeshing::updateAll()
                     
                     // check polygon for existance and then see if all
                     // three edges are within the threshold limit
-                    if( (poly[idx[0]] > 0) && (poly[idx[1]] > 0) && (poly[idx[2]] > 0) && 
+                    if( (poly[idx[0]] >= 0) && (poly[idx[1]] >= 0) && (poly[idx[2]] >= 0) && 
                             (first_poly==-1 || (first_poly+n)%2==0 ) ) {
 
                         float dist_a = (points[poly[idx[0]]] - points[poly[idx[1]]]).norm();
-- 
2.43.0


From ef8dc344a0af38a3b300cd83023ca419eb675bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 61/62] fix: store the remission scale factor of the scan
 meshing

---
 src/operators/ScanMeshing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index a818a9d..eee170d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -28,7 +28,7 @@ void ScanMeshing::serialize(Serialization& so)
 {
     Operator::serialize(so);
     so.write("maxEdgeLength", maxEdgeLength ); 
-    so.write("remissionScaleFactor", maxEdgeLength ); 
+    so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
 }
 
@@ -36,7 +36,7 @@ void ScanMeshing::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
     so.read("maxEdgeLength", maxEdgeLength ); 
-    so.read("remissionScaleFactor", maxEdgeLength ); 
+    so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
 }
 
-- 
2.43.0


From 0917df06864e701a11520b081ec948c1ff8bd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 62/62] fix: mesh scans with lines of different lengths

---
 src/operators/ScanMeshing.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index eee170d..4d2f39d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -138,8 +138,12 @@ bool ScanMeshing::updateAll()
 
     envire::LaserScan& scan(*scanPtr);
 
-    int line1[scan.points_per_line], line2[scan.points_per_line];
-    int *idx_line=line1, *prev_idx_line=line2;
+    // the lines may differ in length
+    size_t max_points = 0;
+    for(size_t line_num=0;line_num<scan.lines.size();line_num++)
+	max_points = std::max( max_points, scan.lines[line_num].ranges.size() );
+
+    std::vector<int> idx_line( max_points ), prev_idx_line( max_points );
 
     for(size_t line_num=0;line_num<scan.lines.size();line_num++) {
         const LaserScan::scanline_t& line(scan.lines[line_num]);
@@ -147,6 +151,8 @@ bool ScanMeshing::updateAll()
         float phi = scan.origin_phi + line.delta_phi;
         float psi = scan.origin_psi;
 
+	std::fill( idx_line.begin(), idx_line.end(), -1 );
+
 	bool has_rem = (line.ranges.size() == line.remissions.size());
 
 	float prev_edgeAngle = M_PI*0.5;
@@ -296,9 +302,7 @@ bool ScanMeshing::updateAll()
         }
 
         // swap line and previous line
-        int *tmp = idx_line;
-        idx_line = prev_idx_line;
-        prev_idx_line = tmp;
+        idx_line.swap( prev_idx_line );
     }
 
     for(size_t i=0;i<markers.size();i++)
-- 
2.43.0

