// The alphabet of a simulated run.  Every step of a plan is one of these.
#pragma once
#define SIM_OPS(X)                                                                                   \
    X(ZERO, "makeZeroState") X(BASISB, "makeBasisState(bits)") X(BASISS, "makeBasisState(states)")   \
    X(FROMVEC, "makeStateFromVector") X(FROMMAT, "makeDDFromMatrix") X(GATE, "makeGateDD")           \
    X(GATE2, "makeTwoQubitGateDD") X(GATEC, "controlled two-qubit gate") X(IDENT, "makeIdent")       \
    X(OVERCAP, "over-capacity request")                                                              \
    X(ADD, "add") X(MULV, "multiply(matrix,vector)") X(MULM, "multiply(matrix,matrix)")              \
    X(TRANS, "transpose") X(CTRANS, "conjugateTranspose") X(KRON, "kronecker") X(EXTEND, "extend")   \
    X(PTRACE, "partialTrace") X(APPLY, "apply gate to state") X(DELEDGE, "deleteEdge")               \
    X(REDO, "repeat an earlier computation")                                                         \
    X(VALS, "value extraction") X(EXPORT, "exportAmplitudes") X(INNER, "innerProduct")               \
    X(FIDM, "fidelityOfMeasurementOutcomes") X(EXPECT, "expectationValue") X(TRACE, "trace")         \
    X(CLOSEID, "isCloseToIdentity") X(SIZE, "size") X(PROBS, "determineMeasurementProbabilities")    \
    X(HOLD, "incRef") X(RELEASE, "decRef") X(DROP, "drop register") X(GC, "garbageCollect(force)")   \
    X(GCU, "garbageCollect()") X(PRESSURE, "number pressure") X(NODEPRESSURE, "node pressure")       \
    X(CLEARCT, "clearComputeTables") X(RESIZE, "resize") X(RESET, "reset") X(SCRTAKE, "take scratch")\
    X(SCRGIVE, "return scratch") X(UNDERFLOW, "decRef of an unreferenced diagram")                   \
    X(NEWPKG, "destroy and recreate the package") X(CYCLE, "repeated work and collection")           \
    X(MEASALL, "measureAll") X(MEASCOL, "measureAll(collapse)") X(MEASONE, "measureOneCollapsing")   \
    X(DZERO, "makeZeroDensityOperator") X(DAPPLY, "applyOperationToDensity")                         \
    X(DPROB, "getProbVectorFromDensityMatrix") X(DMAT, "getDensityMatrix") X(DNOISE, "densityNoise") \
    X(TOFFOLI, "toffoliTable") X(STOCH, "stochasticNoiseOperationCache")                             \
    X(SER, "serialize/deserialize") X(SERFAULTW, "serialize with a failing medium")                  \
    X(SERFAULTR, "deserialize with a failing medium") X(CORRUPT, "deserialize damaged data")         \
    X(FILEIO, "file round trip") X(FILEFAULT, "file I/O with faults") X(TRANSFER, "transfer")        \
    X(DOT, "graph export") X(REDANC, "reduceAncillae") X(REDGARB, "reduceGarbage")                   \
    X(INITMAT, "createInitialMatrix") X(COPYEXP, "exportAmplitudes(file)") X(WEIGHTS, "collection of numbers only") X(CAPACITY, "use up all free slots") \
    X(FULLNUMS, "work while the number table is about to grow") X(MANYTEMPS, "work while very many temporaries are held") X(SATURATE, "saturated reference counts") X(BIGIO, "store and load large diagrams") X(FINISH, "teardown")

namespace sim {
enum Op : int {
#define X(a, b) OP_##a,
    SIM_OPS(X)
#undef X
            OP_COUNT
};
inline const char* opName(int k) {
    static const char* n[] = {
#define X(a, b) b,
            SIM_OPS(X)
#undef X
    };
    return k >= 0 && k < OP_COUNT ? n[k] : "?";
}
inline const char* opId(int k) {
    static const char* n[] = {
#define X(a, b) #a,
            SIM_OPS(X)
#undef X
    };
    return k >= 0 && k < OP_COUNT ? n[k] : "?";
}
} // namespace sim
