"""Core classes outside the environment's structure: metadata, factory, helpers."""
from comp import *
CORE = ["src/core/*.cpp"]
LIBS = ["-lyaml", "-lboost_filesystem", "-lboost_thread", "-lboost_system", "-lpthread"]

SPECS = {
    "C11": dict(key="C11", module="MetaC", build=("meta", CORE + ["driver/meta.cpp"], LIBS), facets=["all"],
                consts=dict(NLay="3", Keys="1..3", Types="1..3", Vals="1..6", Kinds='{"get","cget","keep","copy"}', ELay="1..2", EKeys="1..2", ETypes="1..2"),
                mc=[(5, dict(Vals="{1,2}"))], mct=[(8, dict(Vals="{1,2}"))],
                emit=[(3, dict(Vals="{1,2}", ETypes="1..3", EKeys="{1}")), (3, dict(Vals="{2}", ELay="{1}", EKeys="1..3"))],
                emitt=[(4, dict(Vals="{1,2}"))],
                limit=6000, quick=(7, 2500), thorough=(56, 6000), lens=(15, 40, 80)),
    # names 1..12 of driver/factory.cpp and the part of each after its last "::"
    "C14": dict(key="C14", module="FactoryC", build=("factory", CORE + ["driver/factory.cpp"], LIBS), facets=["all"],
                consts=dict(Names="1..12", Short="<<0, 1, 1, 1, 0, 5, 0, 0, 0, 1, 9, 0>>", Makers="1..3", ENames="1..12"),
                mc=[(3, dict(Makers="1..2"))], mct=[(4, dict(Makers="1..2"))],
                emit=[(2, {}), (3, dict(ENames="{1,2,5,7,9,12}", Makers="1..2"))], emitt=[(4, dict(ENames="{1,2,5,7,9,12}", Makers="1..2"))],
                limit=5000, quick=(7, 1500), thorough=(56, 4000), lens=(15, 40, 80)),
    "C09": dict(key="C09", module="FramesC", build=("frames", CORE + ["driver/frames.cpp"], LIBS), facets=["all"],
                consts=dict(NF="4", Rots="AllRots", TR="5", ERots="{<<1,2,3>>, <<2,-1,3>>, <<3,1,2>>}", ETrans="{<<1,0,0>>, <<0,-2,3>>}", EF="1..3",
                            Names='<<"set","setid","setu","add","add","rem","place","box","rel","relu","relm","point","pmap","pmaproot","ext","clone","alg","algi","rbs">>'),
                mc=[(3, {})], mct=[(5, dict(EF="1..2"))],
                emit=[(3, dict(EF="1..2")), (3, dict(EF="1..3", ERots="{<<2,-1,3>>}", ETrans="{<<0,-2,3>>}"))],
                emitt=[(4, dict(EF="1..3", ERots="{<<2,-1,3>>,<<3,1,2>>}", ETrans="{<<0,-2,3>>}"))],
                limit=4000, quick=(7, 1500), thorough=(56, 5000), lens=(40, 80, 160)),
    "T06": dict(key="T06", module="KalmanC", build=("kalman", ["driver/kalman.cpp"], []), facets=["all"],
                consts=dict(Means="{-1600,-33,0,1,480}", Devs="{0,1,2,5,17,60}", Shs="{0,-14}", NSeq="20"),
                emit=[(1, {})], emitt=[(1, dict(Means="{-1600,-333,-33,0,1,7,480}", Devs="{0,1,2,3,5,8,17,29,60}", Shs="{0,-20,12}"))],
                limit=6000, quick=(7, 2500), thorough=(56, 8000), lens=(50, 100, 200)),
}


def mk(p):
    def f(c):
        standard(c, SPECS[p])
    return f


CHECKS = {p: (mk(p), "model_checking") for p in SPECS}
REPLAY = register(SPECS)
