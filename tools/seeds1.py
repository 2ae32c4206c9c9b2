CF = '#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Event.hpp>\n#include <envire/core/EventHandler.hpp>\n#include <envire/core/Serialization.hpp>\n#include <vector>\n#include <string>\n#include <sys/stat.h>\nusing namespace envire;\n'
ENV = "src/core/Environment.cpp"
B("id-reuse", "C01", [(ENV, "            last_id = numeric_id;\n", "")],
  CF + '''int main(){ Environment env; std::vector<EnvironmentItem::Ptr> keep;
 FrameNode* a = new FrameNode(); a->setUniqueId("/2"); env.attachItem(a);
 FrameNode* b = new FrameNode(); env.attachItem(b);   // "/2" is taken: gets the next free one
 std::string given = b->getUniqueId();
 keep.push_back(env.detachItem(b));
 FrameNode* c = new FrameNode(); env.attachItem(c);
 printf("%s then %s\\n", given.c_str(), c->getUniqueId().c_str());
 EXPECT(c->getUniqueId() != given); return 0; }''',
  "an explicit id that occupies the next number, then an automatic id, whose item is detached before the next automatic id",
  "an id the environment made up is handed out a second time")
B("reparent-root", "C02", [(ENV, "    if( getParent(child) )\n    {\n\tremoveChild( getParent(child), child );\n    }\n\n    frameNodeTree.insert(make_pair(child, parent));",
   "    frameNodeTreeType::iterator link = frameNodeTree.insert( make_pair(child, parent) ).first;\n    if( link->second != parent )\n    {\n\tremoveChild( link->second, child );\n\tif( !isParent( child, parent ) )\n\t    frameNodeTree.insert( make_pair(child, parent) );\n    }"),
   (ENV, "void Environment::addChild(FrameNode* parent, FrameNode* child)\n{", "// true if node is somewhere below ancestor, or the node itself\nstatic bool isParent( FrameNode* ancestor, FrameNode* node )\n{\n    for( FrameNode* n = node; n && !n->isRoot(); n = n->getParent() )\n    {\n\tif( n->getUniqueId() == ancestor->getUniqueId().substr( 0, n->getUniqueId().size() ) )\n\t    return true;\n    }\n    return false;\n}\n\nvoid Environment::addChild(FrameNode* parent, FrameNode* child)\n{")],
  CF + '''int main(){ Environment env; FrameNode *f[13]; for(int i=1;i<13;i++){ f[i]=new FrameNode(); env.attachItem(f[i]); }
 FrameNode* p = f[1]; env.getRootNode()->addChild(p);
 FrameNode* c = 0; for(int i=2;i<13;i++) if(f[i]->getUniqueId().find(p->getUniqueId())==0) c = f[i];
 if(!c){ f[0]=new FrameNode(); f[0]->setUniqueId(p->getUniqueId()+"0"); env.attachItem(f[0]); c=f[0]; }
 env.getRootNode()->addChild(c); EXPECT(c->getParent()==env.getRootNode());
 p->addChild(c); EXPECT(c->getParent()==p); EXPECT(p->getChildren().size()==1); return 0; }''',
  "re-parenting a frame below one whose id is a textual prefix of its own id", "the moved frame loses its old parent and does not get the new one")
B("remove-all-parents", "C03", [(ENV, "\t    layerTree.erase( it );\n\t    return;", "\t    layerTree.erase( child );\n\t    return;")],
  CF + '''struct L : public Layer { ENVIRONMENT_ITEM(L) public: L():Layer(""){} }; const std::string L::className="L";
int main(){ Environment env; L *a=new L,*b=new L,*c=new L; env.attachItem(a);env.attachItem(b);env.attachItem(c);
 env.addChild(a,c); env.addChild(b,c); env.removeChild(a,c);
 EXPECT(env.getParents(c).size()==1); EXPECT(env.getChildren(b).size()==1); return 0; }''',
  "a layer with two parents of which one relation is removed", "removing one parent of a layer removes all of them")
B("detach-top-frame", "C04", [(ENV, "\tif( it->first == item || it->second == item )\n\t    list.push_back( boost::bind( func, it->first, it->second ) );",
   "\tif( it->first == item )\n\t{\n\t    list.push_back( boost::bind( func, it->first, it->second ) );\n\t    // the maps are sorted by the first item, so once past it we are done\n\t    it = map.upper_bound( it->first );\n\t    if( it == map.end() )\n\t\tbreak;\n\t}\n\tif( it->second == item )\n\t    list.push_back( boost::bind( func, it->first, it->second ) );")],
  CF + '''struct L : public Layer { ENVIRONMENT_ITEM(L) public: L():Layer(""){} }; const std::string L::className="L";
int main(){ Environment env; L *a=new L,*b=new L,*c=new L; env.attachItem(a);env.attachItem(b);env.attachItem(c);
 env.addChild(a,c); env.addChild(b,c);
 EnvironmentItem::Ptr p = env.detachItem(c);
 EXPECT(env.getChildren(a).size()==0); EXPECT(env.getChildren(b).size()==0); return 0; }''',
  "detaching an item that has several entries in one relation (a layer with two parents)", "one relation of the detached item stays behind and dangles")
B("silent-move", "C05", [(ENV, "\t    detachFrameNode( el->first, el->second );", "\t    cartesianMapGraph.erase( el );")],
  CF + '''#include <map>
struct M : public Map<2> { ENVIRONMENT_ITEM(M) public: M():Map<2>(""){} Extents getExtents() const { return Extents(); } }; const std::string M::className="M";
struct H : public EventListener { std::multimap<CartesianMap*,FrameNode*> m; void frameNodeSet(CartesianMap* a, FrameNode* b){ m.insert(std::make_pair(a,b)); }
 void frameNodeDetached(CartesianMap* a, FrameNode* b){ for(std::multimap<CartesianMap*,FrameNode*>::iterator i=m.begin();i!=m.end();i++) if(i->first==a&&i->second==b){ m.erase(i); return; } } };
int main(){ H h; { Environment env; env.addEventHandler(&h); M* m=new M; FrameNode *f=new FrameNode,*g=new FrameNode; env.attachItem(f);env.attachItem(g); env.attachItem(m);
 env.setFrameNode(m,f); env.setFrameNode(m,g); EXPECT(h.m.size()==1); EXPECT(h.m.begin()->second==g); env.removeEventHandler(&h);} return 0; }''',
  "a map that has a frame node is placed in another one while a handler is registered", "the handler is not told that the old placement is gone")
B("update-remove", "C06", [("src/core/Event.cpp", "    // adding and removing will cancel each other, if the events are otherwise the same\n    if( ((operation == event::REMOVE && other.operation == event::ADD)\n",
                               "    // adding and removing will cancel each other, if the events are otherwise the same\n    // an update carries the full item, like adding it does\n    if( ((operation == event::REMOVE && (other.operation == event::ADD || other.operation == event::UPDATE))\n")],
  CF + '''int main(){ Environment a, b; EventProcessor* none=0; struct Q : public EventQueue { Environment* e; void process(const Event& m){ m.apply(e);} } q; q.e=&b; q.allowMultithreading(true);
 a.addEventHandler(&q); FrameNode* f=new FrameNode; a.attachItem(f); std::string id=f->getUniqueId(); q.flush(); EXPECT(b.getItem(id));
 f->itemModified(); a.detachItem(f); q.flush(); bool gone=!b.getItem(id); a.removeEventHandler(&q); EXPECT(gone); return 0; }''',
  "an item known to the other side is modified and then removed before the queue is flushed", "the removal is cancelled and the item stays in the following environment")
B("stream-leftover", "C07", [("src/core/Serialization.cpp", "        if(bin_item.binaryStreams.size() > i)\n        {", "        if(bin_item.binaryStreams.size() > i && !bin_item.binaryStreams[i].empty() && bin_item.binaryStreams[i].back() != '\\n')\n        {")],
  CF + '''namespace envire { struct L : public Layer { ENVIRONMENT_ITEM(L) public: std::string s; L():Layer(""){}
 void serialize(Serialization& so){ Layer::serialize(so); so.getBinaryOutputStream("x") << s; }
 void unserialize(Serialization& so){ Layer::unserialize(so); std::istream& is=so.getBinaryInputStream("x"); s.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); } };
ENVIRONMENT_ITEM_DEF(L) }
int main(){ Environment a, b; L* l=new L; l->s="text\\n"; a.attachItem(l); std::vector<BinaryEvent> ev; a.pullEvents(ev);
 try { b.applyEvents(ev); } catch(std::exception& e) { printf("%s\\n", e.what()); return 1; }
 L* r=dynamic_cast<L*>(b.getItem(l->getUniqueId()).get()); EXPECT(r); EXPECT(r->s==l->s); return 0; }''',
  "an item whose binary content ends in a newline byte", "the content cannot be restored at the receiver")
B("out-link-lost", "C08", [("src/core/Serialization.cpp", "    for( Environment::operatorGraphType::iterator it = env->operatorGraphOutput.begin();\n\t    it != env->operatorGraphOutput.end(); it++ )\n    {\n",
   "    for( Environment::operatorGraphType::iterator it = env->operatorGraphOutput.begin();\n\t    it != env->operatorGraphOutput.end(); it = env->operatorGraphOutput.upper_bound( it->first ) )\n    {\n")],
  CF + '''#include <envire/core/SerializationFactory.hpp>
namespace envire { struct L : public Layer { ENVIRONMENT_ITEM(L) public: L():Layer(""){} }; ENVIRONMENT_ITEM_DEF(L)
struct O : public Operator { ENVIRONMENT_ITEM(O) public: O():Operator(0,0){} bool updateAll(){return true;} }; ENVIRONMENT_ITEM_DEF(O) }
int main(){ Environment a; O* o=new O; L *l=new L,*m=new L; a.attachItem(o);a.attachItem(l);a.attachItem(m); a.addOutput(o,l); a.addOutput(o,m); a.addInput(o,l);
 a.serialize("scene"); Environment* b=Environment::unserialize("scene"); O* p=dynamic_cast<O*>(b->getItem(o->getUniqueId()).get());
 EXPECT(b->getOutputs(p).size()==2); EXPECT(b->getInputs(p).size()==1); delete b; return 0; }''',
  "a stored scene with an operator that has several outputs", "only one output of each operator is stored")
B("derived-layers", "C12", [(ENV, "            std::list<Layer*> op_output = getOutputs(it->first);\n            result.splice(result.end(), op_output);", "            result = getOutputs(it->first);")],
  CF + '''struct L : public Layer { ENVIRONMENT_ITEM(L) public: L():Layer(""){} }; const std::string L::className="L";
struct O : public Operator { ENVIRONMENT_ITEM(O) public: O():Operator(0,0){} bool updateAll(){return true;} }; const std::string O::className="O";
int main(){ Environment e; L *i=new L,*a=new L,*b=new L; O *o=new O,*p=new O; e.attachItem(i);e.attachItem(a);e.attachItem(b);e.attachItem(o);e.attachItem(p);
 o->addInput(i);p->addInput(i);o->addOutput(a);p->addOutput(b); EXPECT(e.getLayersGeneratedFrom(i).size()==2); return 0; }''',
  "a layer that is the input of two operators", "only the outputs of the last operator are reported as derived")
B("remove-handler", "C13", [("src/core/EventSource.cpp", "    eventHandlers.erase( \n\t    std::remove_if( eventHandlers.begin(), eventHandlers.end(), boost::lambda::_1 == handler ), \n\t    eventHandlers.end() );",
   "    std::vector<EventHandler*>::iterator it = std::find( eventHandlers.begin(), eventHandlers.end(), handler );\n    if( it != eventHandlers.end() )\n    {\n\t// order is not important, so move the last one into the gap\n\t*it = eventHandlers.back();\n\teventHandlers.resize( it - eventHandlers.begin() + 1 );\n    }")],
  CF + '''struct H : public EventHandler { int n; H():n(0){} void handle(const Event&){ n++; } };
int main(){ H a,b,c; { Environment e; e.addEventHandler(&a);e.addEventHandler(&b);e.addEventHandler(&c); e.removeEventHandler(&a);
 int nb=b.n,nc=c.n; e.attachItem(new FrameNode); EXPECT(b.n==nb+1); EXPECT(c.n==nc+1); e.removeEventHandler(&b); e.removeEventHandler(&c);} return 0; }''',
  "three handlers of which the first is removed", "removing one handler drops others")
B("erase-chain", "T01", [("src/tools/ListGrid.hpp", "\t*p->pthis = p->next;\n\tif( p->next )\n\t    p->next->pthis = p->pthis; ", "\t*p->pthis = p->next;\n\tif( p->next && p->next->next )\n\t    p->next->pthis = p->pthis; ")],
  '''#include <cstring>\n#include <envire/tools/ListGrid.hpp>
using namespace envire; struct V { int v; V(int v=0):v(v){} };
int main(){ ListGrid<V> g(2,2); for(int i=1;i<=2;i++) g.insertTail(0,0,V(i)); 
 ListGrid<V>::iterator it=g.erase(g.beginCell(0,0)); EXPECT(it->v==2); g.insertHead(0,0,V(9)); // 9,2
 ListGrid<V>::iterator b=g.beginCell(0,0); EXPECT(b->v==9); 
 ListGrid<V> h(2,2); h.insertTail(1,1,V(1)); h.insertTail(1,1,V(2)); h.insertTail(1,0,V(7)); h.erase(h.beginCell(1,1)); h.insertTail(0,1,V(5)); h.erase(h.beginCell(1,1));
 EXPECT(h.beginCell(1,1)==h.endCell()); return 0; }''',
  "erasing the first of exactly two elements of a cell and then the other one", "the last element of the cell cannot be removed and the memory of a freed one is written", sources=[])
B("box-cache", "T02", [("src/tools/BoxLookUpTable.cpp", "    double epsilon = 0.00001;\n    if((fabs(scale - scalei) < epsilon) ", "    double epsilon = 0.00001;\n    if((fabs(scale - scalei) < epsilon * scale + epsilon) "),
     ("src/tools/BoxLookUpTable.cpp", "        && (fabs(sizeYi - sizeY) < epsilon) ", "        && (fabs(sizeYi - sizeY) < epsilon || sizeYi <= this->sizeX)")],
  '''#include <envire/tools/BoxLookUpTable.hpp>
#include <cmath>
int main(){ envire::BoxLookUpTable t; t.recompute(0.1,1.0,1.0,1.0); t.recompute(0.1,1.0,0.4,1.0); double d=t.getDistanceToBox(0,0.45); printf("%f\\n",d); EXPECT(d>0.25-0.01-0.01); return 0; }''',
  "the table is computed again for a box that is narrower in y only", "the table of the wider box is kept, distances are underestimated", sources=["src/tools/BoxLookUpTable.cpp"])
B("radial-refine", "T03", [("src/tools/RadialLookUpTable.cpp", "    if(this->scale == scale && this->maxRadius == maxRadius)\n\treturn;\n", "    if(this->scale == scale && this->maxRadius == maxRadius)\n\treturn;\n    const int oldHalf = numElementsPerLine / 2;\n"),
   ("src/tools/RadialLookUpTable.cpp", "    computeAngles();\n    computeDistances();\n", "    // the angles do not depend on the scale\n    if(!angleTable || numElementsPerLineHalf > oldHalf)\n\tcomputeAngles();\n    computeDistances();\n")],
  """#include <envire/tools/RadialLookUpTable.hpp>
#include <cmath>
int main(){ envire::RadialLookUpTable t; t.recompute(0.1,1.0); t.recompute(0.25,1.0); for(int x=-4;x<=4;x++) for(int y=-4;y<=4;y++) { EXPECT(fabs(t.getDistance(x,y)-0.25*sqrt(x*x+y*y))<1e-9); if(x||y) EXPECT(fabs(cos(t.getAngle(x,y))*sqrt(x*x+y*y)-x)<1e-6); }
 return 0; }""",
  "a recomputation to fewer cells than before", "the angles of the larger table are read with the stride of the smaller one", sources=["src/tools/RadialLookUpTable.cpp"])
B("kmeans-late-stop", "T04", [("src/tools/ExpectationMaximization.hpp", "\twhile( associateSamples() > 0 )\n\t    calcMeans();", "\t// the number of iterations is bounded by the problem size\n\tfor( size_t i = 0; i < 2 * means.size() && associateSamples() > 0; i++ )\n\t    calcMeans();")],
  """#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire; typedef GaussianMixture<double,2> G; typedef G::Vector V;
int main(){ std::vector<V> s; int xs[]={0,1,2,3,4,5,6,7,8,9,20,40}; for(int i=0;i<12;i++) s.push_back(V(xs[i],0)); std::swap(s[6],s[1]);
  KMeans<G> km; km.initialize(2,s); km.run(); if(km.associateSamples()!=0){ printf("not stable\\n"); return 1; }
  srand(3); for(int r=0;r<3000;r++){ int n=8+rand()%6, k=2; s.clear(); for(int i=0;i<n;i++) s.push_back(V(rand()%16+i*0.001,rand()%16));
  KMeans<G> m; m.initialize(k,s); m.run(); if(m.associateSamples()!=0){ printf("not stable in round %d\\n",r); return 1; } } return 0; }""",
  "samples for which the clustering needs many iterations", "the clustering stops before it is stable", sources=[])
B("em-weighted-sum", "T05", [("src/tools/ExpectationMaximization.hpp", "\t    loglhood += log( sum );\n\t    gamma.row(i) *= (weighted ? weights[i] : 1.0) / sum;", "\t    const Scalar w = (weighted ? weights[i] : 1.0) / sum;\n\t    loglhood += log( sum );\n\t    gamma.row(i) *= std::min( w, Scalar(1e3) );")],
  '''#include <envire/tools/ExpectationMaximization.hpp>
using namespace envire; typedef GaussianMixture<double,1> G; typedef G::Vector V;
int main(){ ExpectationMaximization<G> em; std::vector<V> s; for(int i=0;i<4;i++){ V v; v[0]=i; s.push_back(v);} V f; f[0]=20; 
 em.samples=s; em.samples.push_back(f); G::Vector m; m[0]=1.5; G::Matrix c; c(0,0)=25; em.gmm.params.push_back(G::Parameter(1.0,m,c)); em.step(); em.step();
 double w=0, mean=0; for(size_t i=0;i<em.gmm.params.size();i++){ w+=em.gmm.params[i].weight; mean+=em.gmm.params[i].weight*em.gmm.params[i].dist.mean[0]; }
 G::Parameter p=em.gmm.params[0]; ExpectationMaximization<G> e2; e2.samples=em.samples; m[0]=1.5; c(0,0)=4; e2.gmm.params.push_back(G::Parameter(1.0,m,c)); e2.step();
 w=0; mean=0; for(size_t i=0;i<e2.gmm.params.size();i++){ w+=e2.gmm.params[i].weight; mean+=e2.gmm.params[i].weight*e2.gmm.params[i].dist.mean[0]; }
 printf("%f %f\\n",w,mean); EXPECT(fabs(w-1)<1e-6); EXPECT(fabs(mean-5.2)<1e-6); return 0; }''',
  "a sample far from all components, with a small likelihood", "the responsibility of unlikely samples is cut, weights no longer add up to one", sources=[])

B("inverse-cov", "C09", [("src/core/Transform.cpp", "\t    J*getCovariance()*J.transpose() );", "\t    J.transpose()*getCovariance()*J );")],
  CF + """#include <envire/core/Transform.hpp>
int main(){ TransformWithUncertainty::Covariance c=TransformWithUncertainty::Covariance::Zero(); for(int i=0;i<6;i++) c(i,i)=1+i;
 Eigen::Affine3d a(Eigen::Translation3d(1,2,3)); TransformWithUncertainty t(a,c); TransformWithUncertainty i=t.inverse().inverse();
 EXPECT(i.getCovariance().isApprox(c,1e-9)); Environment e; FrameNode*f=new FrameNode(t); e.getRootNode()->addChild(f);
 TransformWithUncertainty r=e.relativeTransformWithUncertainty(e.getRootNode(),f); EXPECT((r*t).getTransform().isApprox(Transform::Identity()));
 PointWithUncertainty p=r*PointWithUncertainty(Eigen::Vector3d(1,2,3)); EXPECT(fabs(p.getCovariance()(0,0)-4)<1e-9); return 0; }""",
  "the inverse of an uncertain transform with a lever arm", "the covariance is propagated with the transposed Jacobian")
B("rel-tree", "C09", [(ENV, "    if( fg.second != tg.second )\n\tthrow std::runtime_error(\"relativeTransform: FrameNodes don't have a common root.\");", "    // both trees have to belong to the same environment\n    if( fg.second->getEnvironment() != tg.second->getEnvironment() )\n\tthrow std::runtime_error(\"relativeTransform: FrameNodes don't have a common root.\");")],
  CF + """int main(){ Environment e; FrameNode *f=new FrameNode(Transform(Eigen::Translation3d(1,0,0))), *g=new FrameNode; e.getRootNode()->addChild(g); e.attachItem(f);
 bool thrown=false; try { e.relativeTransform(f,g); } catch(std::exception&) { thrown=true; } EXPECT(thrown); return 0; }""",
  "two frames of the same environment that are not connected", "a transform is made up for frames without a common root")
B("assign-metadata", "C11", [("src/core/Layer.cpp", "\tremoveData();\n\tfor( DataMap::const_iterator it = other.data_map.begin(); it != other.data_map.end(); it++ )\n\t    data_map.insert(", "\tfor( DataMap::const_iterator it = other.data_map.begin(); it != other.data_map.end(); it++ )\n\t    data_map.insert(")],
  CF + """struct L : public Layer { ENVIRONMENT_ITEM(L) public: L():Layer(""){} }; const std::string L::className="L";
int main(){ L *a=new L,*b=new L; EnvironmentItem::Ptr pa(a), pb(b); a->getData<int>("x")=1; b->getData<int>("x")=2; b->getData<int>("y")=3; *b=*a; EXPECT(b->getData<int>("x")==1); EXPECT(!b->hasData("y")); return 0; }""",
  "assigning to a layer that already has metadata", "the previous metadata survives the assignment")
B("reregister", "C14", [("src/core/SerializationFactory.cpp", "    getMap()[className] = f;", "    getMap().insert( std::make_pair( className, f ) );")],
  CF + """#include <envire/core/SerializationFactory.hpp>
static int used=0; EnvironmentItem* m1(Serialization&){ used=1; return new FrameNode; } EnvironmentItem* m2(Serialization&){ used=2; return new FrameNode; }
int main(){ SerializationFactory::addClass("Thing",m1); SerializationFactory::addClass("Thing",m2); FileSerialization so; EnvironmentItem::Ptr p(SerializationFactory::createObject("Thing",so)); EXPECT(used==2); return 0; }""",
  "registering a class a second time", "the first registration is used instead of the last")
B("kalman-small", "T06", [("src/tools/Numeric.hpp", "    double gain = var / (var + m_var);\n    if( gain != gain )\n\tgain = 0.5; // this happens when both stdevs are 0. ", "    double gain = 0.5; // when both stdevs are 0. \n    if( var + m_var > 1e-9 )\n\tgain = var / (var + m_var);")],
  """#include <cmath>
#include <envire/tools/Numeric.hpp>
int main(){ double m=1,s=1e-6; kalman_update(m,s,2.0,1e-5); EXPECT(fabs(m-1.0099)<1e-3); return 0; }""",
  "very small standard deviations", "accurate estimates are averaged instead of weighted", sources=[])
