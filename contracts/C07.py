from contracts.lp import *
DRIVER = "C07.cpp"; DRIVER_SRCS = ["src/utils/System.cpp"]; DRIVER_LIBS = ["-ltbb"]
ASSUMPTIONS = ["keys are 64-bit and not zero (the identifier type of the library; zero marks a free slot)", "tables have at most 2^56 slots; allocation succeeds",
               "a non-growing set keeps at least one free slot (precondition of insert)"]
CONTRACTS = [HashC(), Pow2P(), DISTL, SUM.lemmas("lp")]
for G in (1, 0):
    CONTRACTS += table_contracts(SET[G]) + [FilterFn(SET[G]), Copy(SET[G]), SetEq(SET[G])] + iterator_contracts(SET[G])
