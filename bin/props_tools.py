"""The container and table helpers of src/tools."""
from comp import *

SPECS = {
    "T01": dict(key="T01", module="ListGridC", build=("listgrid", ["driver/listgrid.cpp"], []), facets=["all"],
                consts=dict(MaxW="4", MaxH="3", Vals="1..5", MaxLen="4", Kinds='{"ihead","itail","drain","move","clear","copy"}', Grids="{1,2}"),
                mc=[(5, dict(MaxW="2", MaxH="1", Vals="{1,2}", MaxLen="3"))], mct=[(8, dict(MaxW="2", MaxH="2", Vals="{1,2}", MaxLen="3", Kinds='{"ihead","itail","move","copy"}'))],
                emit=[(5, dict(MaxW="2", MaxH="2", Vals="{1,2}", MaxLen="3", Grids="{1}", Kinds='{"ihead","itail","move","drain"}'))], 
                emitt=[(6, dict(MaxW="2", MaxH="2", Vals="{1,2}", MaxLen="3", Grids="{1}", Kinds='{"ihead","itail","move","drain","copy"}'))],
                limit=5000, quick=(7, 1500), thorough=(56, 5000), lens=(15, 40, 80)),
    "T02": dict(key="T02", module="BoxLutC", build=("boxlut", ["driver/lut.cpp", "src/tools/BoxLookUpTable.cpp"], [], True, ["-DBOX"]), facets=["all"],
                consts=dict(Scales="{4,7,10,16,25,32,64}", Sizes="{0,5,16,30,64,100,128,200}", Dists="{0,3,16,21,32,64,96,130}", Q="-100..100"),
                emit=[(2, dict(Scales="{16,25}", Sizes="{16,30}", Dists="{16,40}", Q="{-70,-56,-40,-33,-25,-16,-8,-1,0,1,8,17,24,31,39,40,41,48,56,64,80,1000}")),
                      (3, dict(Scales="{16}", Sizes="{16,30}", Dists="{10,40}", Q="{-48,-30,0,7,25,31,50,57}"))],
                emitt=[(4, dict(Scales="{16,25}", Sizes="{16,30}", Dists="{10,40}", Q="{-48,-30,0,7,25,31,50,57}"))],
                limit=4000, quick=(7, 3000), thorough=(70, 8000), lens=(30, 100, 200)),
    "T03": dict(key="T03", module="RadLutC", build=("radlut", ["driver/lut.cpp", "src/tools/RadialLookUpTable.cpp"], []), facets=["all"],
                consts=dict(Scales="{1,3,4,7,10,16,25,64}", Radii="{1,5,16,30,64,100,128,200,333}"),
                emit=[(3, dict(Scales="{4,16,25}", Radii="{16,30,50,64}"))], emitt=[(4, dict(Scales="{4,16,25}", Radii="{16,30,50,64}"))],
                limit=4000, quick=(7, 3000), thorough=(70, 8000), lens=(30, 100, 200)),
    "T04": dict(key="T04", module="KMeansC", build=("kmeans", ["driver/kmeans.cpp"], []), facets=["all"], timeout=60,
                consts=dict(MCoord="2", MN="{3}", MK="{1,2}", MW="{1,2}"),
                mc=[(1, dict(MCoord="3", MN="{3}", MK="{1,2,3}", MW="{1}"))], mct=[(1, dict(MCoord="3", MN="{3}", MK="{1,2,3}", MW="{1,2}")), (1, dict(MCoord="3", MN="{4}", MK="{1,2,3}", MW="{1,2}")), (1, dict(MCoord="2", MN="{5}", MK="{1,2,3}", MW="{1,3}"))],
                emit=[(1, dict(MCoord="3", MN="{3}", MK="{2,3}", MW="{1}")), (1, dict(MCoord="2", MN="{4}", MK="{2}", MW="{1,2}"))],
                emitt=[(1, dict(MCoord="3", MN="{3}", MK="{1,2,3}", MW="{1,2}")), (1, dict(MCoord="2", MN="{4}", MK="{2,3}", MW="{1,2}"))],
                limit=3000, quick=(7, 600), thorough=(70, 3000), lens=(5, 10, 20)),
    "T05": dict(key="T05", module="GmmC", build=("gmm", ["driver/gmm.cpp"], []), facets=["gmm", "em"],
                consts=dict(Kinds='{"dens","dens1","dens3","mix","norm","draw","drawc","em"}'),
                emit=[(1, {})], limit=3000, quick=(7, 1200), thorough=(70, 4000), lens=(12, 25, 40)),
}


def mk(p):
    def f(c):
        standard(c, SPECS[p])
    return f


CHECKS = {p: (mk(p), "model_checking") for p in SPECS}
REPLAY = register(SPECS)
