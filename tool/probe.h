// Instantiates the public templates of the library with plain arguments, so
// that their bodies are available to the verifier. Contains no logic.
#include <EasyFactorGraph/categoric/GroupRange.h>
#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>
#include <EasyFactorGraph/factor/Function.h>
