from contracts.lp import *
DRIVER = "C08.cpp"; DRIVER_SRCS = ["src/utils/System.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["keys are 64-bit and not zero; values are 64-bit words", "tables have at most 2^56 slots; allocation succeeds"]
CONTRACTS = [HashC(), Pow2P(), DISTL, SUM.lemmas("lp"), Contains(SET[1]), Count(SET[1])] + table_contracts(MAP) + [Get(MAP), InsertPair(MAP)] + iterator_contracts(MAP)
