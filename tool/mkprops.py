import json
H='src/header/EasyFactorGraph/'; S='src/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p("C01","Joint-domain enumeration visits every combination exactly once, in order",
 "Iterating the joint domain of any non-empty list of domain sizes starts at the all-zero combination, visits every in-range combination exactly once in lexicographic order (last position fastest) and is exhausted after exactly the product of the sizes steps. Advancing an exhausted iteration is refused with an error, a copy of an iteration continues independently from the same position, and two iterations compare equal exactly when they are at the same position (or both exhausted).",
 ["inputs"],"all non-empty lists of domain sizes >= 1 (any length, any sizes whose product fits the machine), all positions in the iteration",
 "The tests iterate a few groups with up to three small variables; the carry logic must be right for every length and every mix of sizes, including sizes equal to 1.",
 [S+'categoric/GroupRange.cpp',H+'categoric/GroupRange.h'],
 [("odometer increment with carry","GroupRange::operator++"),("construction at zero","GroupRange::Data::Data"),("iteration helper","for_each_combination"),("position comparison","GroupRange::isEqual")],
 [("combination","current element of the joint domain","GroupRange::Data::combination"),("sizes","the domain sizes","GroupRange::Data::sizes")],["GroupRange::operator*","for_each_combination callbacks"])
p("C02","A factor's table is a total map, whatever its internal storage",
 "For every history of writes, clears and image copies on a table over a group of variables, reading any in-range combination returns the last value written to exactly that combination, or zero if none was; writes to one combination never affect another. Reads, full enumeration (every combination once, in order, with the value a read would give) and enumeration of the non-null entries (every non-zero combination exactly once) agree with each other before, during and after the internal switch from sparse to dense storage.",
 ["inputs","histories"],"all groups of variables, all sequences of set / clear / copy of images, all combinations",
 "The switch of representation happens at a size-dependent threshold and the dense index is a mixed-radix number; tests write a handful of combinations on a few sizes and never compare representations.",
 [S+'factor/Function.cpp',H+'factor/Function.h'],
 [("sparse to dense switch","Function::set"),("mixed radix index","Function::CombinationHasher::operator()"),("lookup","Function::findImage"),("enumeration","Function::forEachCombination / forEachNonNullCombination"),("threshold","make_info")],
 [("data_","sparse map or dense vector of images","Function::data_"),("info","sizes, joint size, switch threshold","Function::info")],["Function::findImage","Function::forEachCombination","Immutable::getProbabilities"])
p("C03","Invalid factor and variable input is refused and changes nothing",
 "Writing to a factor is accepted exactly when the value is not negative and the combination has one in-range entry per variable; every other write is refused with an error and leaves the whole table unchanged. A variable can be created exactly when its size is positive and its name is not empty, an indicator only for an in-range value, and a correlating or anti-correlating factor only for at least two variables of one common size.",
 ["inputs"],"all values, all combinations (any length, any entries), all names and sizes, all groups",
 "Tests check one or two refusals; acceptance must be exactly the documented domain for every input and a refused write must not have side effects.",
 [S+'factor/Mutable.cpp',S+'categoric/Variable.cpp',S+'factor/Factor.cpp',S+'structure/SpecialFactors.cpp'],
 [("range check before write","Mutable::set"),("constructor checks","Variable::Variable"),("same size check","check_all_same_size"),("indicator check","Indicator::Indicator")])
p("C04","Variable groups never hold duplicates and keep order, set view and size",
 "A group of variables built, extended or replaced in any way lists distinct variables (identified by name and domain size) in the given order, its set view holds exactly those variables, and its joint size is the product of the domain sizes. Duplicate or empty collections, and replacements whose length or position-wise domain sizes differ from the current ones, are refused with an error and leave the group unchanged; set difference and complement contain exactly the elements of the first set that are not in the second.",
 ["inputs","histories"],"all collections of variables, all sequences of add / replace, all pairs of sets",
 "Tests try a couple of duplicates and one size mismatch; the guarantee is over every collection and every position.",
 [S+'categoric/Group.cpp',H+'categoric/Group.h'],
 [("uniqueness check","Group::Group, Group::add"),("replacement check","Group::replaceVariables"),("joint size","Group::size"),("set difference","operator-=, get_complementary")],
 [("group / group_sorted","ordered list and set view of the same variables","Group")])
p("C05","Factor construction follows the factor algebra",
 "The factor merged from any factors is defined over the union of their variables and its image at every joint combination is the product of the images of the operands at the combination projected on their variables. Re-ordering the variables of a factor permutes combinations and keeps every image; copies and image-cloning reproduce every image; a correlating factor is 1 exactly where all entries coincide and 0 elsewhere, an anti-correlating factor is the opposite; projecting through an image finder on any larger group gives the image of the sub-combination, and missing variables are refused.",
 ["inputs"],"all factors, operand lists, variable orders, sizes and combinations",
 "Tests check products on one or two hand-picked pairs of binary factors; index bookkeeping (projection, permutation, early exit) must be right for every arity and order.",
 [S+'factor/Factor.cpp',S+'factor/ImageFinder.cpp',H+'factor/Factor.h',H+'factor/ImageFinder.h'],
 [("union of variables","gather_variables"),("product over projections","Factor::Factor(vector)"),("projection indices","get_indices, ImageFinder::extractSmallerCombination"),("permutation","compute_new_positions, get_permuted, Factor::cloneWithPermutedGroup"),("correlation tables","SimplyCorrelatedFunction, SimplyAntiCorrelatedFunction")])
p("C06","An exponential factor always reads as exp(weight x raw image)",
 "At every combination an exponential factor reads exp(w*x), where w is the last weight set and x the image that the source factor had when the exponential factor was built, including combinations the source never set (x = 0). The raw images never change when the weight changes or the source is modified, and a copy has the same raw images and weight and evolves independently.",
 ["inputs","histories"],"all source factors, weights, weight updates, copies and combinations",
 "Tests compare a few images of one factor; copies, re-weighting and unset combinations for every factor are not reached.",
 [S+'factor/FactorExponential.cpp',H+'factor/FactorExponential.h'],
 [("transform","ExponentialFunction::transform"),("image capture","ExponentialFunction::ExponentialFunction"),("weight access","FactorExponential::setWeight / getWeight")])
p("C07","Probabilities of a factor are its images normalised, in enumeration order",
 "The probabilities reported by any factor have one entry per combination in enumeration order, are all non-negative, sum to one and are proportional to the images; when all images are zero they are uniform. Asking for them does not change the factor.",
 ["inputs"],"all factors with non-negative images (const and exponential), all sizes",
 "Tests look at a few distributions; normalisation must hold for every table including the all-zero one.",
 [S+'factor/Immutable.cpp',H+'factor/Immutable.h'],[("collect, sum and divide","Immutable::getProbabilities")])
p("C08","Message factors compute the sum-product and max-product equations",
 "The message sent through a binary factor is, for every receiver value, the sum (or the maximum) over the sender values of sender belief times factor image, independently of the order in which the two variables are listed; the factor slice for an observed value keeps exactly the images compatible with it. Merging unary factors multiplies them entry by entry up to one common positive scale, an indicator is 1 only at its value, the distance between two unary factors is the L1 distance of their probabilities, merging factors that are not all over the same single variable is refused, and so are messages and slices of non-binary factors.",
 ["inputs"],"all variable sizes (including different sizes on the two sides), orders, images and values",
 "Tests only see these factors through a few propagation results with mostly square symmetric factors, where swapped positions do not show.",
 [S+'structure/SpecialFactors.cpp',H+'structure/SpecialFactors.h'],
 [("message","fill_message, MessageSUM, MessageMAP"),("slice","Evidence::Evidence"),("product","MergableFunction::merge / normalize"),("positions","get_positions, get_other_var")])
p("C09","The graph's structure stays consistent under any history of edits",
 "After any sequence of factor insertions, evidence settings, evidence changes and evidence removals, every variable is either hidden or observed with its last assigned value, the reported sets partition the variables, and hidden variables are grouped exactly by the connectivity of the factors among hidden variables. Every inserted factor links exactly its variables, symmetrically, and is inactive exactly when at least one of its variables is observed.",
 ["histories","inputs"],"all models with unary and binary factors and all interleavings of insertions and evidence operations",
 "Tests replay a few scripted sequences on small graphs; setting and removing evidence re-partitions clusters in history dependent ways (merge, split, neighbours both observed).",
 [S+'structure/EvidenceManager.cpp',S+'structure/bases/FactorsAware.cpp',S+'structure/bases/StateAware.cpp',S+'structure/Types.cpp'],
 [("activate / disable connections","Node::activate, Node::disable"),("cluster recomputation","compute_clusters"),("evidence","EvidenceSetter::setEvidence, EvidenceRemover::removeEvidence_"),("insertion","FactorsAware::addDistribution")],
 [("clusters / evidences","partition of the nodes","StateAware::GraphState"),("active_connections / disabled_connections","adjacency","Node")])
p("C10","Queries never use stale state",
 "Whatever queries were made before, a query made after any sequence of insertions, evidence changes, removals and weight updates returns what the same query returns on a freshly built model with the same factors, weights and evidence. Refused operations (unknown variable, out-of-range value, removal of something not observed, duplicate or malformed factor) leave later query results unchanged.",
 ["histories"],"all histories mixing queries (marginal, joint, MAP, sampling, gradient) and mutations",
 "Caches (messages, merged unary factors, cluster topology, last propagation) are invalidated operation by operation; tests query at most a few times per model.",
 [S+'structure/EvidenceManager.cpp',S+'structure/bases/FactorsAware.cpp',S+'structure/bases/BeliefAware.cpp',S+'structure/QueryManager.cpp',S+'trainable/FactorsTunableManager.cpp'],
 [("belief reset","BeliefAware::resetBelief, wouldNeedPropagation"),("cache reset","Cache::reset on merged_unaries / connectivity"),("message reset","reset_messages")])
p("C11","On acyclic models every query is exact",
 "When the factors between hidden variables form no cycle, marginals equal the exact marginals of the normalised product of all factors conditioned on the evidence, joint marginals of connected subgroups equal the exact joint, and the reported most probable assignment is the maximiser of that product whenever it is unique. Observed variables report all mass on the observed value, unknown variables are refused.",
 ["inputs","histories"],"all tree or forest models over unary and binary factors, all evidences",
 "Tests compare a few fixed models; exactness depends on each message using exactly the right incoming messages.",
 [S+'structure/Types.cpp',S+'structure/bases/BeliefAware.cpp',S+'structure/QueryManager.cpp'],
 [("dependencies of a message","HiddenCluster::updateConnectivity"),("schedule","message_passing"),("message update","HiddenCluster::TopologyInfo::updateMessage"),("combination","gather_incoming_messages")])
p("C12","Parallel work is partitioned: each task runs once and never races",
 "For any number of threads and tasks, a parallel run executes every task exactly once, each by one worker identified by an index below the pool size, and returns only after all are done. Messages scheduled in the same batch of loopy propagation never read a message that another one of the batch writes, and every message is scheduled exactly once per iteration, so results with two or more threads do not depend on their number, and one thread reaches the same fixed point.",
 ["inputs","schedules"],"all task counts, pool sizes, topologies and thread schedules",
 "Tests run a few sizes with a few threads; a lost or doubled index or a racing batch shows only for particular counts and schedules.",
 [S+'structure/bases/PoolAware.cpp',H+'structure/bases/PoolAware.h',S+'structure/BaselineLoopyPropagator.cpp',S+'structure/bases/BeliefAware.cpp'],
 [("stride partition","process_tasks_in_parallel"),("hand-shake","Pool::parallelFor, Pool::Worker"),("batching","compute_loopy_order"),("tree schedule","message_passing")])
p("C13","Gibbs samples are complete, in range and follow the conditional distributions",
 "A sampling request returns exactly the requested number of samples, each with one in-range value per variable in the order of the model's variables, and observed variables keep their observed value in every sample. Each hidden value is drawn from the distribution proportional to the product of all factors touching the variable given the current values of the others, so zero-probability values given the rest are not drawn, and the stored samples are spaced by the requested number of evolutions after the burn-in.",
 ["inputs","histories"],"all models, evidences, sample counts, seeds and thread counts",
 "Tests compare empirical frequencies of small models with a tolerance.",
 [S+'structure/GibbsSampler.cpp',H+'structure/GibbsSampler.h'],
 [("sweep","GibbsSampler::evolve / make chain"),("discrete draw","UniformSampler::sampleFromDiscrete"),("gather","GibbsSampler::makeSamples")])
p("C14","Weights and gradients map one to one onto tuners, in order",
 "Weights are read and written in one fixed order: setting a weight vector makes every tunable factor (all members of a sharing group included) take its own entry, reading it back returns the same vector, and a vector of the wrong length is refused without changing anything. Every gradient entry is the training-set average of the raw feature of its factor(s) minus the model expectation of the same feature, in the same order, with sharing groups summing their members.",
 ["inputs","histories"],"all sets of tunable factors, sharing groups, weights and training sets",
 "Tests check weights on a few models and finite differences on one chain.",
 [S+'trainable/FactorsTunableManager.cpp',S+'trainable/tuners/BaseTuner.cpp',S+'trainable/tuners/UnaryTuner.cpp',S+'trainable/tuners/BinaryTuner.cpp',S+'trainable/tuners/CompositeTuner.cpp',S+'model/HiddenObservedTuner.cpp'],
 [("alpha part","BaseTuner::getGradientAlpha"),("beta part","UnaryTuner / BinaryTuner / CompositeTuner"),("ordering","FactorsTunableAware::setWeights / getWeights / getWeightsGradient_")])
p("C15","Training sets are validated and subsets are faithful",
 "A training set can be built exactly from a non-empty list of combinations of one common non-zero length, and iterating it visits exactly those combinations in order. Iterating a random subset of a given percentage visits the rounded-down share of the combinations, each of them an element of the set; percentages outside the valid range are refused.",
 ["inputs"],"all lists of combinations and percentages",
 "Tests use one set and one percentage.",
 [S+'trainable/TrainSet.cpp',H+'trainable/TrainSet.h'],
 [("constructor check","TrainSet::TrainSet"),("subset size and draw","TrainSet::Iterator::Iterator"),("iteration","TrainSet::Iterator::forEachSample")])
p("C16","Exported models and imported data reproduce the original",
 "Exporting a model and importing the result into an empty model reproduces variables, factor images, weights, sharing groups and evidences. Importing a training set from text yields exactly one combination per data row with the row's values in order, and rows of differing lengths are refused.",
 ["inputs"],"all models expressible through the API, all textual training sets",
 "Tests round-trip three models and one training set file.",
 [S+'io/json/Exporter.cpp',S+'io/json/Importer.cpp',S+'io/Utils.cpp',S+'io/Utils.h',S+'io/TrainSetImport.cpp'],
 [("json export","Exporter::exportToJson"),("json import","Importer::convert"),("rows","import_train_set, for_each_line")])
p("C17","Conditional random fields assign evidence by variable, never by accident",
 "A conditional random field observes exactly the variables observed in the model it was built from, refuses construction from a model without evidence, and assigning a vector of evidences gives each observed variable its own entry in the documented order, refusing vectors of the wrong length or with out-of-range values without changing anything. Training-set rows used for its gradient are read at the positions of the variables they belong to, whatever the order in which variables and evidences were inserted.",
 ["inputs","histories"],"all source models, insertion orders, evidence vectors and training sets",
 "Tests use models where the insertion order and the evidence order coincide.",
 [S+'model/ConditionalRandomField.cpp',H+'model/ConditionalRandomField.h'],
 [("evidence assignment","ConditionalRandomField::setEvidences"),("positions","evidence_vars_positions / find_positions"),("gradient","ConditionalRandomField::getWeightsGradient_")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
