"""Which contracts, native drivers and libraries decide which property."""
IR = ["ir"]
DD = ["ir", "dd"]

PROPS = {
    "P01": dict(contracts=["P01.cpp"], native="P01.cpp", libs=["dd/GateMatrixDefinitions.cpp", "ir/operations/OpType.cpp"]),
    "P02": dict(contracts=["P02.cpp"], native="P02.cpp", libs=DD),
    "P03": dict(contracts=["P03.cpp"], native="P03.cpp", libs=["dd/GateMatrixDefinitions.cpp", "ir"]),
    "P09": dict(contracts=["P09.cpp"], native="P09.cpp", libs=DD),
    "P14": dict(contracts=["P14.cpp"], native="P14.cpp", libs=DD),
    "P17": dict(contracts=["P17.cpp"], native="P17.cpp", libs=IR),
    "P18": dict(contracts=["P18.cpp"], native="P18.cpp", libs=IR),
}
PROPS["P05"] = dict(contracts=["P05.cpp"], native="P05.cpp", libs=DD)
PROPS["P06"] = dict(contracts=["P06.cpp"], native="P06.cpp", libs=DD)
PROPS["P07"] = dict(contracts=["P07.cpp"], native="P07.cpp", libs=DD)
PROPS["P04"] = dict(contracts=["P04.cpp"], native="P04.cpp", libs=DD)
PROPS["P19"] = dict(contracts=["P19.cpp"], native="P19.cpp", libs=DD)
PROPS["P13"] = dict(contracts=["P13.cpp"], native="P13.cpp", libs=DD)
PROPS["P11"] = dict(contracts=["P11.cpp"], native="P11.cpp", libs=DD)
PROPS["P10"] = dict(contracts=["P10.cpp"], native="P10.cpp", libs=DD)
PROPS["P12"] = dict(contracts=["P12.cpp"], native="P12.cpp", libs=DD)
PROPS["P08"] = dict(contracts=["P08.cpp"], native="P08.cpp", libs=DD)
PROPS["P16"] = dict(contracts=["P16.cpp"], native="P16.cpp", libs=DD)
PROPS["P15"] = dict(contracts=["P15.cpp"], native="P15.cpp", libs=DD)
PROPS["P20"] = dict(contracts=["P20.cpp"], native="P20.cpp", libs=DD)
PROPS["P21"] = dict(contracts=["P21.cpp"], native="P21.cpp", libs=DD)
PROPS["P22"] = dict(contracts=["P22.cpp"], native="P22.cpp", libs=DD)
PROPS["P23"] = dict(contracts=["P23.cpp"], native="P23.cpp", libs=DD + ["circuit_optimizer"])
PROPS["P24"] = dict(contracts=["P24.cpp"], native="P24.cpp", libs=[])
