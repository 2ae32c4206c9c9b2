# Seeded bugs of the map properties.
MF = '#include <envire/Core.hpp>\n#include <envire/core/Operator.hpp>\n#include <envire/core/Serialization.hpp>\n#include <envire/maps/MLSGrid.hpp>\n#include <vector>\n#include <set>\n#include <cmath>\nusing namespace envire;\n'
GRID = ["src/core/*.cpp", "src/maps/GridBase.cpp", "src/maps/Grids.cpp", "src/tools/BresenhamLine.cpp"]
MLS = GRID + ["src/maps/MLSGrid.cpp"]
TRAV = GRID + ["src/maps/TraversabilityGrid.cpp", "src/tools/RadialLookUpTable.cpp", "src/tools/BoxLookUpTable.cpp"]
B("from-frame", "M01", [("src/maps/GridBase.cpp", "        return fromMap(Eigen::Vector3d(map_x, map_y, 0), *frame);\n    }\n    else\n    {\n        return Eigen::Vector3d(map_x, map_y, 0);",
                          "        // the origin is the same for all cells, only the direction depends on the cell\n        const Eigen::Vector3d origin = fromMap(Eigen::Vector3d(offsetx, offsety, 0), *frame);\n        return origin + getEnvironment()->relativeTransform(getFrameNode(), frame).linear().transpose() * Eigen::Vector3d(map_x - offsetx, map_y - offsety, 0);\n    }\n    else\n    {\n        return Eigen::Vector3d(map_x, map_y, 0);")],
  MF + '''int main(){ Environment e; MLSGrid* g=new MLSGrid(4,4,1,1,0,0); FrameNode* f=new FrameNode(Transform(Eigen::AngleAxisd(M_PI/2,Eigen::Vector3d::UnitZ()))); e.getRootNode()->addChild(f); e.attachItem(g); e.setFrameNode(g,f);
 Eigen::Vector3d p=g->fromGrid(1,2,e.getRootNode()); size_t x=9,y=9; bool ok=g->toGrid(p,x,y,e.getRootNode()); printf("%d %d\\n",(int)x,(int)y); EXPECT(ok&&x==1&&y==2); return 0; }''',
  "the centre of a cell is asked for in a frame that is turned against the grid", "cell centres are turned the wrong way", sources=MLS)
B("get-negative", "M02", [("src/maps/MLSGrid.cpp", "\tif( p.distance( patch ) < interval && (!ignore_negative || !p.isNegative()) )\n\t{\n\t    return &p;\n\t}\n",
                            "\tif( p.distance( patch ) < interval )\n\t{\n\t    // free space is no surface, so there is nothing at this height\n\t    if( ignore_negative && p.isNegative() )\n\t\treturn NULL;\n\t    return &p;\n\t}\n")],
  MF + '''int main(){ MLSGrid::Ptr g=new MLSGrid(2,2,1,1); g->insertTail(0,0,SurfacePatch(3,0.1,2.5,SurfacePatch::NEGATIVE)); g->insertTail(0,0,SurfacePatch(1,0.1));
 EXPECT(g->get(GridBase::Position(0,0),1.0,0.1)!=NULL); g->erase(g->beginCell(0,0)); EXPECT(g->get(GridBase::Position(0,0),1.0,0.1)!=NULL); return 0; }''',
  "a cell that holds a free-space patch in front of a surface within the same heights", "the surface is not found by a lookup", sources=MLS)
B("cut-below", "M03", [("src/maps/MLSPatch.hpp", "\t\t\telse if( ro.mean - ro.height < rp.mean )\n\t\t\t{\n\t\t\t    double new_mean = ro.mean - ro.height;",
                         "\t\t\telse\n\t\t\t{\n\t\t\t    double new_mean = ro.mean - ro.height;")],
  MF + '''int main(){ SurfacePatch f(1.0f,0.1f,0.8f,SurfacePatch::NEGATIVE), o(2.0f,0.1f,0.5f,SurfacePatch::VERTICAL); f.update_idx=1; o.update_idx=2;
 bool m=f.merge(o,0.1,1.0,MLSConfiguration::KALMAN); printf("%d %f %f\\n",m,f.mean,f.height); EXPECT(!m); EXPECT(fabs(f.mean-1.0)<1e-6&&fabs(f.height-0.8)<1e-6); return 0; }''',
  "a newer occupied patch that starts above an older free patch, with a gap smaller than the gap size", "the free patch is stretched over the gap instead of being left alone", sources=MLS)
B("line-restart", "M04", [("src/tools/BresenhamLine.cpp", "    err = dx+dy; /* error value e_xy */\n    hasP = true;", "    // an iterator that has not been used up has its error value already\n    if (!hasP || !err)\n        err = dx+dy; /* error value e_xy */\n    hasP = true;"),
                            ("src/tools/BresenhamLine.cpp", "{\n    init(start.x(), start.y(), end.x(), end.y());\n}", "{\n    hasP = false;\n    init(start.x(), start.y(), end.x(), end.y());\n}"),
                            ("src/tools/BresenhamLine.cpp", "envire::Bresenham::Bresenham(const envire::GridBase::Position& start, const envire::GridBase::Position& end)\n{\n", "envire::Bresenham::Bresenham(const envire::GridBase::Position& start, const envire::GridBase::Position& end)\n{\n    hasP = false;\n")],
  MF + '''#include <envire/tools/BresenhamLine.hpp>
int main(){ Bresenham b(Eigen::Vector2i(0,0),Eigen::Vector2i(9,2)); Eigen::Vector2i p; b.getNextPoint(p); b.getNextPoint(p); b.init(0,0,7,1);
 int n=0; bool ok=true; while(n<50 && b.getNextPoint(p)) { n++; ok = ok && fabs(p.y()-p.x()/7.0)<=0.51; } printf("%d\\n",n); EXPECT(ok&&n==8&&p==Eigen::Vector2i(7,1)); return 0; }''',
  "an iterator that is given a new line before the previous one was used up", "the new line is not straight or misses its end", sources=GRID)
B("corner-order", "M05", [("src/maps/GridBase.cpp", "    if(upRight.y() < upLeft.y())\n    {\n        std::swap(upLeft, upRight);\n        std::swap(downLeft, downRight);\n    }\n", "    // only the upper corners are compared below\n    if(upRight.y() < upLeft.y())\n        std::swap(upLeft, upRight);\n")],
  MF + """std::set<std::pair<size_t,size_t> > in; void fi(size_t x,size_t y){ in.insert(std::make_pair(x,y)); }
int main(){ MLSGrid::Ptr g=new MLSGrid(40,40,1,1); base::Pose2D pose; pose.position=Eigen::Vector2d(20.5,20.5);
 for(int k=0;k<24;k++){ pose.orientation=k*M_PI/12; in.clear(); EXPECT(g->forEachInRectangle(pose,20,12,fi)); Eigen::Rotation2D<double> r(-pose.orientation);
 for(int x=0;x<40;x++) for(int y=0;y<40;y++){ Eigen::Vector2d d=r*Eigen::Vector2d(x+0.5-20.5,y+0.5-20.5); bool is=in.count(std::make_pair(x,y)); if(fabs(d.x())<9&&fabs(d.y())<5) EXPECT(is); if(fabs(d.x())>11.5||fabs(d.y())>7.5) EXPECT(!is); } } return 0; }""",
  "a rectangle turned by more than a right angle", "its corners are connected crosswise and cells are missed or added", sources=MLS)
B("band-nodata", "M06", [("src/maps/Grid.hpp", "            getGridData(target_band) = source.getGridData(source_band);\n            std::pair<T, bool> no_data = source.getNoData(source_band);\n            if (no_data.second)\n                setNoData(target_band, no_data.first);",
                           "            getGridData(target_band) = source.getGridData(source_band);\n            std::pair<T, bool> no_data = source.getNoData(source_band);\n            // keep what is configured for the band already\n            if (no_data.second && !getNoData(target_band).second)\n                setNoData(target_band, no_data.first);")],
  MF + '''#include <envire/maps/Grids.hpp>
int main(){ ElevationGridF: ; Grid<float>::Ptr a=new Grid<float>(2,2,1,1,0,0,"x"), b=new Grid<float>(2,2,1,1,0,0,"x"); a->getGridData("x")[0][0]=-1; a->setNoData("x",-1); b->getGridData("x")[0][0]=5; b->setNoData("x",-9);
 b->copyBandFrom(*a,"x"); EXPECT(b->getGridData("x")[0][0]==-1); EXPECT(b->getNoData("x").second && b->getNoData("x").first==-1); return 0; }'''.replace("ElevationGridF: ; ", ""),
  "a band with a no-data value is copied over a band that has another one", "empty cells of the copy are taken for values", sources=GRID)
B("assign-probability", "M07", [("src/maps/TraversabilityGrid.cpp", "    traversabilityArray = NULL;\n    probabilityArray = NULL;\n    return *this;", "    // look up the arrays again, they belong to the other grid\n    traversabilityArray = NULL;\n    if(&other != this && !probabilityArray)\n        setProbabilityArray();\n    return *this;")],
  MF + '''#include <envire/maps/TraversabilityGrid.hpp>
int main(){ TraversabilityGrid::Ptr a=new TraversabilityGrid(3,3,1,1), b=new TraversabilityGrid(3,3,1,1); a->setTraversabilityAndProbability(1,1.0,1,1); b->setTraversabilityAndProbability(1,0.2,1,1); *b=*a; EXPECT(fabs(b->getProbability(1,1)-1.0)<0.01);
 b->setProbability(0.4,1,1); EXPECT(fabs(a->getProbability(1,1)-1.0)<0.01); return 0; }''',
  "assigning to a traversability grid whose probabilities have been used before", "the grid keeps a pointer to its freed probabilities", sources=TRAV, flags="-fsanitize=address")
B("passage-neighbour", "M08", [("src/operators/SimpleTraversability.cpp", "                in_distance[y][x] = (d2 < radius2);\n", "                // neighbouring cells have nothing in between\n                in_distance[y][x] = (d2 < radius2) && (abs(dx) > 1 || abs(dy) > 1) && (dx * dy == 0 || abs(dx) != abs(dy));\n")],
  MF + '''#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/operators/SimpleTraversability.hpp>
int main(){ Environment e; Grid<float>* in=new Grid<float>(7,7,1,1,0,0,"s"); TraversabilityGrid* out=new TraversabilityGrid(7,7,1,1); e.attachItem(in); e.attachItem(out); FrameNode* f=new FrameNode; e.getRootNode()->addChild(f); e.setFrameNode(in,f); e.setFrameNode(out,f);
 for(int y=0;y<7;y++) for(int x=0;x<7;x++) in->getGridData("s")[y][x]=0.1; in->getGridData("s")[2][2]=2; in->getGridData("s")[4][4]=2;
 SimpleTraversability* op=new SimpleTraversability(1,3,4,0); e.attachItem(op);
 op->setSlope(in,"s"); op->setOutput(out,TraversabilityGrid::TRAVERSABILITY); op->updateAll(); int v=out->getGridData(TraversabilityGrid::TRAVERSABILITY)[3][3]; printf("%d\\n",v); e.detachItem(op); EXPECT(v==1||v==255); return 0; }''',
  "two obstacles that face each other exactly diagonally", "a passage that is too narrow stays open", sources=TRAV + ["src/operators/SimpleTraversability.cpp"])
B("select-last", "M09", [("src/maps/MLSMap.cpp", "\tdouble dist = std::max( fabs(t.translation().x()), fabs(t.translation().y() ) );\n\tif( dist < best_dist )", "\tdouble dist = std::max( fabs(t.translation().x()), fabs(t.translation().y() ) );\n\t// stay with the active grid when it is as good as the others\n\tif( dist < best_dist || (best_grid && dist <= 0.5 * threshold && grids[i] == active) )")],
  MF + '''#include <envire/maps/MLSMap.hpp>
int main(){ Environment e; MLSMap* m=new MLSMap; e.attachItem(m); FrameNode *mf=new FrameNode; e.getRootNode()->addChild(mf); e.setFrameNode(m,mf);
 MLSGrid* g[2]; for(int i=0;i<2;i++){ g[i]=new MLSGrid(10,10,0.5,0.5); FrameNode* f=new FrameNode(Transform(Eigen::Translation3d(i*3,0,0))); mf->addChild(f); e.attachItem(g[i]); e.setFrameNode(g[i],f); m->addGrid(g[i]); }
 FrameNode* r=new FrameNode(Transform(Eigen::Translation3d(1,0,0))); mf->addChild(r); EXPECT(m->getActiveGrid()==g[1]); m->selectActiveGrid(r,5.0,true); EXPECT(m->getActiveGrid()==g[0]); return 0; }''',
  "the active grid is within half of the threshold, but an earlier grid is closer", "a grid that is not the closest one becomes active", sources=MLS + ["src/maps/MLSMap.cpp"])
B("merge-transform", "M10", [("src/operators/MergeMLS.cpp", "\t    Transform C_m2g = env->relativeTransform( input->getFrameNode(), output->getFrameNode() );\n\n\t    for(size_t m=0;m<input->getWidth();m++)",
                               "\t    // grids below the same frame share the transform\n\t    if( it == grids.begin() || (*(it-1))->getFrameNode()->getParent() != input->getFrameNode()->getParent() )\n\t\tC_m2g = env->relativeTransform( input->getFrameNode(), output->getFrameNode() );\n\n\t    for(size_t m=0;m<input->getWidth();m++)"),
                              ("src/operators/MergeMLS.cpp", "\tfor( std::vector<MLSGrid*>::iterator it = grids.begin(); it != grids.end(); it++ )\n\t{\n\t    MLSGrid* input = *it;\n\n\t    // grids below", "\tTransform C_m2g;\n\tfor( std::vector<MLSGrid*>::iterator it = grids.begin(); it != grids.end(); it++ )\n\t{\n\t    MLSGrid* input = *it;\n\n\t    // grids below")],
  MF + '''#include <envire/operators/MergeMLS.hpp>
int main(){ Environment e; MLSGrid *a=new MLSGrid(4,4,1,1), *b=new MLSGrid(4,4,1,1), *o=new MLSGrid(8,8,1,1); MLSGrid* g[3]={a,b,o}; for(int i=0;i<3;i++){ e.attachItem(g[i]); FrameNode* f=new FrameNode(Transform(Eigen::Translation3d(i%2*4,i%2*2,0))); e.getRootNode()->addChild(f); e.setFrameNode(g[i],f); }
 a->updateCell(1,1,0.5,0.1); b->updateCell(1,1,0.5,0.1); MergeMLS* op=new MergeMLS; e.attachItem(op); op->addInput(a); op->addInput(b); op->addOutput(o); op->updateAll();
 int n=0; for(int x=0;x<8;x++) for(int y=0;y<8;y++) for(MLSGrid::iterator i=o->beginCell(x,y);i!=o->endCell();i++) n++; bool ok=n==2 && o->beginCell(1,1)!=o->endCell() && o->beginCell(5,3)!=o->endCell(); e.detachItem(op); EXPECT(ok); return 0; }''',
  "two inputs in sibling frames that are at different poses", "patches of the second grid are put where they would be in the first", sources=MLS + ["src/maps/MLSMap.cpp", "src/operators/MergeMLS.cpp"])

CLOUD = GRID + ["src/maps/Pointcloud.cpp", "src/maps/TriMesh.cpp"]
B("merge-clear", "M11", [("src/operators/MergePointcloud.cpp", "\ttargetcloud->clear();\n", "\ttargetcloud->vertices.clear();\n")],
  MF + '#include "plystub.hpp"\n' + """#include <envire/operators/MergePointcloud.hpp>
int main(){ Environment e; Pointcloud *a=new Pointcloud, *o=new Pointcloud; FrameNode* f=new FrameNode; e.getRootNode()->addChild(f); e.setFrameNode(a,f); e.setFrameNode(o,f);
 a->vertices.push_back(Eigen::Vector3d(1,2,3)); a->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR).push_back(Eigen::Vector3d(1,0,0)); MergePointcloud* op=new MergePointcloud; e.attachItem(op); op->addInput(a); op->addOutput(o); op->updateAll();
 EXPECT(o->vertices.size()==1 && o->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR).size()==1); a->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR)[0]=Eigen::Vector3d(0,1,0); op->updateAll();
 std::vector<Eigen::Vector3d>& c=o->getVertexData<Eigen::Vector3d>(Pointcloud::VERTEX_COLOR); bool ok=o->vertices.size()==1 && c.size()==1 && c[0]==Eigen::Vector3d(0,1,0); e.detachItem(op); EXPECT(ok); return 0; }""",
  "a merge into a cloud that has colours or normals from an earlier merge", "the vertices get the colours and normals of the earlier ones", sources=CLOUD + ["src/operators/MergePointcloud.cpp"])
SCAN = MF + '#include "plystub.hpp"\n' + """#include <envire/maps/LaserScan.hpp>
#include <envire/operators/ScanMeshing.hpp>
static TriMesh* mesh(Environment& e, LaserScan* s){ FrameNode* f=new FrameNode; e.getRootNode()->addChild(f); e.setFrameNode(s,f); TriMesh* m=new TriMesh; e.setFrameNode(m,f); ScanMeshing* op=new ScanMeshing; e.attachItem(op); op->addInput(s); op->addOutput(m); op->updateAll(); return m; }
static void line(LaserScan* s, double phi, int n, const int* r){ base::samples::LaserScan l; l.start_angle=-0.2; l.angular_resolution=0.1; for(int i=0;i<n;i++) l.ranges.push_back(r[i]); s->addScanLine(phi,l); }
"""
SCANSRC = CLOUD + ["src/maps/LaserScan.cpp", "src/operators/ScanMeshing.cpp"]
B("ghost-next", "M12", [("src/operators/ScanMeshing.cpp", "\t    prev_edgeAngle = edgeAngle;\n", "\t    // readings without a distance have no angle\n\t    if( range > minRange )\n\t\tprev_edgeAngle = edgeAngle;\n")],
  SCAN + """int main(){ Environment e; LaserScan* s=new LaserScan; const int r[4]={0,1000,1000,1000}; line(s,0,4,r); line(s,0.1,4,r); TriMesh* m=mesh(e,s); printf("%d\\n",(int)m->vertices.size());
 // the reading next to the missing one is at a step
 EXPECT(m->vertices.size()==4); return 0; }""",
  "a line that begins with a reading without a distance", "the ghost reading behind a steep step becomes a vertex", sources=SCANSRC)
B("offset-tilt", "M12", [("src/operators/ScanMeshing.cpp", "Eigen::AngleAxisd(phi, Eigen::Vector3d::UnitX())", "Eigen::AngleAxisd(line.delta_phi, Eigen::Vector3d::UnitX())")],
  SCAN + """int main(){ Environment e; LaserScan* s=new LaserScan; s->origin_phi=0.5; s->center_offset=Eigen::Vector3d(0,0,0.2); const int r[3]={1000,1000,1000}; line(s,0.25,3,r); TriMesh* m=mesh(e,s); EXPECT(m->vertices.size()==3);
 Eigen::Vector3d p(-sin(-0.2),cos(0.75)*cos(-0.2),sin(0.75)*cos(-0.2)); p+=Eigen::AngleAxisd(0.75,Eigen::Vector3d::UnitX())*Eigen::Vector3d(0,0,0.2); EXPECT((m->vertices[0]-p).norm()<1e-4); return 0; }""",
  "a scan with a centre offset whose lines are given relative to a tilt of the whole scan", "the centre offset is turned by the tilt of the line only", sources=SCANSRC)
