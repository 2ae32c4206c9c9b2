"""Maps."""
from comp import *
CORE = ["src/core/*.cpp"]
LIBS = ["-lyaml", "-lboost_filesystem", "-lboost_thread", "-lboost_system", "-lpthread"]
GRID = ["src/maps/GridBase.cpp", "src/maps/Grids.cpp", "src/tools/BresenhamLine.cpp"]

SPECS = {
    "M01": dict(key="M01", module="GridC", build=("grid", CORE + GRID + ["driver/grid.cpp"], LIBS), facets=["all"],
                consts=dict(Sizes="{<<2,3>>}", Scales="{<<4,8>>}", Offs="{<<0,0>>}", Q="{-5,-1,0,1,3,4,7,8,9,15,16,23,24,25}", TR="{<<0,0,0>>, <<4,-8,2>>}", EOps='{"to","new"}',
                            Names='<<"unit","new","new","like","close","close","close","put","frame","frame","to","to","to","tof","tof","huge","from","geom","has","ext","align","align","align","align">>'),
                mc=[(3, dict(EOps='{"new","new2","put","frame","align"}'))],
                emit=[(2, dict(Offs="{<<0,0>>,<<-3,5>>}")), (2, dict(EOps='{"new","misc"}', Offs="{<<-3,5>>}")),
                      (4, dict(EOps='{"new2","frame","put","align"}', Sizes="{<<2,2>>}", Scales="{<<32,32>>}", Offs="{<<0,0>>,<<32,-32>>}", TR="{<<16,0,0>>,<<32,64,3>>}"))],
                limit=4000, quick=(7, 2500), thorough=(70, 8000), lens=(30, 60, 120)),
    "M02": dict(key="M02", module="MLSGridC", build=("mlsgrid", CORE + GRID + ["src/maps/MLSGrid.cpp", "driver/mlsgrid.cpp"], LIBS), facets=["store", "index", "get", "match"],
                consts=dict(Levels="0..5", Sizes="{<<1,1>>,<<2,3>>,<<3,2>>,<<3,3>>}", Scales="{10,10,20,5}", Offs="{<<0,0>>,<<-13,7>>}", EOps="{}"),
                mc=[(3, dict(Levels="{0,1}", EOps='{"ins","upd","erase","move","misc","copy","merge"}'))],
                emit=[(3, dict(Levels="{0,2}", EOps='{"ins","upd","get"}')), (3, dict(Levels="{1}", EOps='{"ins","erase","move","misc","copy"}')),
                      (4, dict(Levels="{1}", EOps='{"upd","misc","merge"}'))],
                limit=4000, quick=(7, 2500), thorough=(70, 8000), lens=(30, 60, 120)),
    "M03": dict(key="M03", module="MLSPatchC", build=("mlspatch", CORE + GRID + ["src/maps/MLSGrid.cpp", "driver/mlspatch.cpp"], LIBS), facets=["all"],
                consts=dict(Ms="0..40", Hs="{1,3,8,16}", Ws="{1,4}", Gaps="{0,2,8,20}", Ths="{0,1,6}", EOps="{}"),
                mc=[(3, dict(Ms="{0,9}", Hs="{3,16}", Ws="{4}", Gaps="{2}", Ths="{0}", EOps='{"mk","kal","dist"}'))],
                emit=[(3, dict(Ms="{8,16}", Hs="{4,8,16}", Ws="{4}", Gaps="{2}", Ths="{1}", EOps='{"mk","kal"}')), (4, dict(Ms="{8}", Hs="{4}", Ws="{1,4}", Gaps="{2}", Ths="{1}", EOps='{"mk","sum"}'))],
                limit=4000, quick=(6, 2000), thorough=(70, 8000), lens=(30, 60, 120)),
    "M04": dict(key="M04", module="LinesC", build=("lines", CORE + GRID + ["driver/lines.cpp"], LIBS), facets=["all"],
                consts=dict(Ends="-4..4", Long="60", Names='<<"init","next","rest","line">>', EOps='{"init","next","rest"}'),
                mc=[(4, dict(Ends="{-2,-1,0,3}"))],
                emit=[(3, dict(EOps='{"init","next","rest"}')), (1, dict(Ends="-8..8", EOps='{"line"}'))],
                limit=4000, quick=(5, 1500), thorough=(70, 8000), lens=(30, 60, 120)),
    "M05": dict(key="M05", module="LinesC", build=("lines", CORE + GRID + ["driver/lines.cpp"], LIBS), facets=["all"],
                consts=dict(Ends="{}", Long="9", Names='<<"rect","rects">>', EOps='{"rect","rects"}'),
                mc=[(1, dict())],
                emit=[(1, dict())],
                limit=4000, quick=(7, 700), thorough=(70, 3000), lens=(10, 20)),
    "M06": dict(key="M06", module="BandsC", build=("bands", CORE + GRID + ["driver/bands.cpp"], LIBS), facets=["all"],
                consts=dict(Types="0..10", Sizes="{<<1,1>>,<<3,2>>,<<2,3>>,<<1,4>>}", Bs="{0}", EOps="{}",
                            Names='<<"new","like","like","set","set","setw","get","getm","def","cdef","fill","fill","fill","in","nod","nodall","band","minmax","minmax","frame","from","from","copyb","copyb","clone","assign","assign","str","put","put","wr","wr","wr","rd","rd","rde","rde","rde","gdal","gdal","ser","ser">>'),
                mc=[(3, dict(Types="{0,2,7}", Sizes="{<<3,2>>}", EOps='{"new","fill","set","nod","copy","put","file","ser"}'))],
                emit=[(2, dict(Sizes="{<<3,2>>}", EOps='{"new","create","read","set"}')), (3, dict(Types="0..8", Sizes="{<<3,2>>}", EOps='{"new","fill","ser","read"}')),
                      (4, dict(Types="{0,2}", Sizes="{<<2,2>>}", Bs="{0,1}", EOps='{"new","fill","nod","copy","copyb"}')),
                      (5, dict(Types="{1,7}", Sizes="{<<3,2>>}", EOps='{"new","fill","put","file"}'))],
                limit=1500, quick=(7, 1500), thorough=(70, 6000), lens=(30, 60, 120)),
    "M07": dict(key="M07", module="TravC", build=("trav", CORE + GRID + ["src/maps/TraversabilityGrid.cpp", "src/tools/RadialLookUpTable.cpp", "src/tools/BoxLookUpTable.cpp", "driver/trav.cpp"], LIBS), facets=["all"],
                consts=dict(Sizes="{<<2,2>>,<<5,5>>,<<8,6>>,<<7,9>>,<<8,8>>}", EOps="{}",
                            Names='<<"new","new","new","class","class","class","reg","reg","cls","set","set","set","set","setp","setp","both","raw","get","get","getp","same","copyb","assign","assign","ser","snew","meas","worst","worst","worstp","worst","stat","stat","stat","stat","stat2","stat2","stat2">>'),
                mc=[(3, dict(Sizes="{<<3,4>>}", EOps='{"new","class","reg","set","copy","rect"}'))],
                emit=[(3, dict(Sizes="{<<4,4>>}", EOps='{"class","reg","set","get","copy"}')), (4, dict(EOps='{"copy","ser","get"}')), (3, dict(EOps='{"full","reg"}')), (3, dict(Sizes="{<<7,9>>}", EOps='{"new","thin"}')),
                      (4, dict(Sizes="{<<4,5>>}", EOps='{"new","rect","set"}'))],
                limit=1200, quick=(7, 1500), thorough=(70, 6000), lens=(30, 60, 120)),
    "M08": dict(key="M08", module="TravOpsC", build=("travops", CORE + GRID + ["src/maps/TraversabilityGrid.cpp", "src/tools/RadialLookUpTable.cpp", "src/tools/BoxLookUpTable.cpp", "src/operators/SimpleTraversability.cpp",
                                                     "src/operators/TraversabilityGrowClasses.cpp", "src/operators/ObjectGrowing.cpp", "driver/travops.cpp"], LIBS), facets=["all"],
                consts=dict(Sizes="{<<2,2>>,<<5,5>>,<<6,3>>,<<1,4>>}", EOps="{}",
                            Names='<<"new","new","new","conf","conf","conf","cell","cell","fill","fill","fill","fill","nod","put","run","run","run","run","run","run","grow","grow","objects","project","reload">>'),
                mc=[(3, dict(EOps='{"conf","cell","run","grow"}'))],
                emit=[(3, dict(EOps='{"conf","cell","run"}')), (4, dict(EOps='{"run","grow","reload"}'))],
                limit=1200, quick=(7, 1500), thorough=(70, 6000), lens=(30, 60, 120)),
    "M09": dict(key="M09", module="MLSMapC", build=("mlsmap", CORE + GRID + ["src/maps/MLSGrid.cpp", "src/maps/MLSMap.cpp", "driver/mlsmap.cpp"], LIBS), facets=["all"],
                consts=dict(EOps="{}", Names='<<"map","grid","grid","add","add","add","create","create","select","select","put","put","put","put","move","move","get","get","get","get","again","again","again","again","ext","ext","straight","straight","straight","seal","clone","assign","deep">>'),
                mc=[(3, dict(EOps='{"grid","add","create","select","put","move","copy"}'))],
                emit=[(4, dict(EOps='{"grid","add","create","select"}')), (5, dict(EOps='{"grid","add","put","get"}')), (6, dict(EOps='{"one","get","move1"}')), (4, dict(EOps='{"map","grid","add","copy"}'))],
                limit=1500, quick=(7, 1200), thorough=(70, 5000), lens=(30, 60, 120)),
    "M10": dict(key="M10", module="ConvC", build=("conv", CORE + GRID + ["src/maps/MLSGrid.cpp", "src/maps/MLSMap.cpp", "src/maps/Pointcloud.cpp", "src/maps/ElevationGrid.cpp", "src/operators/GridFloatToMLS.cpp", "src/operators/MLSToGrid.cpp",
                                                  "src/operators/MLSToPointCloud.cpp", "src/operators/MLSProjection.cpp", "src/operators/MergeMLS.cpp", "driver/conv.cpp"], LIBS), facets=["all"],
                consts=dict(EOps="{}", Names='<<"new","new","new","fgrid","fgrid","fset","fset","fset","egrid","egrid","eset","ins","ins","ins","ins","ins","pts","pts","pts","pvar","pcol","unc","unc","move","move","f2m","f2m","m2g","m2g","m2g","merge","merge","merge","proj","proj","proj","m2p","m2p">>'),
                mc=[(3, dict(EOps='{"new","ins","fset","move","f2m","merge","m2g"}'))],
                emit=[(4, dict(EOps='{"new","ins","merge"}')), (3, dict(EOps='{"new","fset","move","f2m"}')), (3, dict(EOps='{"pts","move","proj"}')), (4, dict(EOps='{"pts","data","proj"}')), (3, dict(EOps='{"ins","move","m2p","m2g"}'))],
                limit=1200, quick=(7, 1200), thorough=(70, 5000), lens=(30, 60, 120)),
    "M11": dict(key="M11", module="CloudC", build=("cloud", CORE + GRID + ["src/maps/Pointcloud.cpp", "src/maps/TriMesh.cpp", "src/operators/MergePointcloud.cpp", "src/operators/CutPointcloud.cpp",
                                                    "src/operators/DistanceGridToPointcloud.cpp", "driver/cloud.cpp"], LIBS), facets=["all"],
                consts=dict(EOps="{}", Names='<<"new","add","add","add","add","add","addm","addm","meta","meta","same","same","same","drop","clear","pose","pose","home","shift","origin","frame","copy","copy","clone","assign","sample","text","text","import","nofile","merge","merge","merge","cut","cut","cut","d2p","d2p","d2p","face","face","mesh","mesh","mesh","normals","normals","normals","normals","unface">>'),
                mc=[(4, dict(EOps='{"add","meta","copy","clear"}'))],
                emit=[(4, dict(EOps='{"add","meta","pose","copy"}')), (4, dict(EOps='{"add","meta","cut"}')), (4, dict(EOps='{"addB","add","meta","metaB","merge"}')), (3, dict(EOps='{"add","text","clear"}')), (5, dict(EOps='{"face"}')),
                      (4, dict(EOps='{"add","short","meta","cut"}'))],
                limit=1200, quick=(7, 1500), thorough=(70, 6000), lens=(30, 60, 120)),
    "M12": dict(key="M12", module="ScanC", build=("scan", CORE + GRID + ["src/maps/Pointcloud.cpp", "src/maps/TriMesh.cpp", "src/maps/LaserScan.cpp", "src/operators/ScanMeshing.cpp", "driver/scan.cpp"], LIBS), facets=["all"],
                consts=dict(EOps="{}", Names='<<"new","set","set","fwd","fwd","line","line","line","line","line","line","line","conf","conf","text","import","bad","nofile","store","clone","two","mesh","mesh","mesh","mesh">>'),
                mc=[(4, dict(EOps='{"line","set","conf","text","mesh"}'))],
                emit=[(4, dict(EOps='{"grid","mesh"}')), (4, dict(EOps='{"odd","text","mesh"}')), (4, dict(EOps='{"line","conf","set","mesh"}'))],
                limit=1200, quick=(7, 1200), thorough=(70, 5000), lens=(30, 60, 120)),
}


def mk(p):
    def f(c):
        standard(c, SPECS[p])
    return f


CHECKS = {p: (mk(p), "model_checking") for p in SPECS}
REPLAY = register(SPECS)
