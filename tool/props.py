"""Which contracts decide which property, and what the bounded stand-in covers."""

PROPS = {
    'C01': dict(contracts=['Ctor', 'CtorGroup', 'Copy', 'Deref', 'DerefArrow', 'Inc', 'End', 'Eq', 'Ne'],
                bounded='domains of up to 6 variables of size up to 7: enumeration compared with an independent odometer'),
    'C02': dict(contracts=['MakeInfo', 'FnCtor', 'HasherCall', 'FnSet', 'FnFind', 'FnFindT', 'FnClear', 'FnClone', 'Transform', 'ForEach', 'ForEachNN'], bounded='random histories of writes on tables of up to 4 variables of size up to 5, compared with a map'),
    'C03': dict(contracts=['VarCtor', 'Indicator', 'MakeVariable', 'ImmCtor', 'MutCtor', 'MutSet', 'AllSameSize', 'CorrFnCtor', 'AntiFnCtor', 'FactorCorr', 'FactorAnti'], bounded='random valid and invalid writes and constructor arguments'),
    'C04': dict(contracts=['SmartCmp', 'SmartHash', 'ToVarsSet', 'GroupCtor', 'GroupCtor1', 'GroupAdd', 'GroupReplace', 'GroupSize', 'GroupVars', 'GroupSet', 'GroupEq',
                           'SetMinus', 'Complementary', 'VarSize', 'VarName'],
                bounded='random lists of up to 6 variables'),
    'C05': dict(contracts=['FactorMerge', 'GatherVariables', 'GetIndices', 'FinderCtor', 'MakeFinder', 'Extract', 'FinderImage', 'FinderTransf', 'FactorData', 'FactorVars', 'FactorCopy', 'FactorClone', 'FnClone',
                           'AllSameSize', 'CorrFnCtor', 'AntiFnCtor', 'FactorCorr', 'FactorAnti', 'NewPositions', 'GetPermuted', 'ClonePermuted'], bounded='random factors over up to 4 variables'),
    'C06': dict(contracts=['TransformExp', 'ExpFnCtor', 'ExpFnGet', 'ExpFnSet', 'ExpGetWeight', 'ExpSetWeight', 'ExpData', 'ExpOfFactor', 'ExpOfFactor1', 'ExpCopy'], bounded='random exponential factors'),
    'C07': dict(contracts=['GetProbabilities'], bounded='random factors'),
    'C08': dict(contracts=['MessageSum', 'MessageMax', 'MergedMany', 'EvidenceCtor', 'UnaryCtor', 'Diff', 'MergableCtor', 'MergableMerge', 'MergableNormalize', 'MergedVar', 'MergedMerge', 'MergedNormalize', 'Indicator'], bounded='random binary and unary factors'),
    'C09': dict(contracts=['Activate', 'Disable', 'FindVariable', 'ObservedVars', 'HiddenVars', 'Locate', 'SameVariable', 'FindOrMake', 'AddUnary', 'Hybrid', 'AddBinary', 'AddDistribution', 'SetEvidence', 'RemoveEvidence1', 'ResetState', 'RemoveOne', 'RemoveMany', 'RemoveAll'], bounded='random graphs of up to 17 variables, histories of up to 120 operations'),
    'C10': dict(contracts=['NeedProp', 'ResetMessages', 'CacheReset', 'CacheSet', 'CacheEmpty', 'CacheGet', 'UpdateMerged', 'Locate', 'FindOrMake', 'AddUnary', 'Hybrid', 'AddBinary', 'AddDistribution', 'SetEvidence', 'RemoveEvidence1', 'ResetState', 'RemoveOne', 'RemoveMany', 'RemoveAll'], bounded='random graphs and histories of up to 25 operations'),
    'C11': dict(contracts=['FindMax', 'Zeros', 'CanUpdate', 'GatherUnaries', 'UpdateMerged', 'UpdateMessage', 'GatherIncoming'], bounded='random forests of up to 19 variables, compared with brute force or variable elimination'),
    'C12': dict(contracts=['ProcessTasks','NoChangingDeps'], bounded='random graphs, 1 to 8 threads; the same cases under ThreadSanitizer', races=True),
    'C13': dict(contracts=['SampleDiscrete','DeltaBurn'], bounded='random small graphs; the same cases under ThreadSanitizer', races=True),
    'C14': dict(contracts=['CompositeAlpha', 'CompositeBeta', 'CompositeSet', 'CompositeGet', 'CompositeAdd', 'BaseSet', 'BaseGet', 'GetWeights', 'SetWeights', 'DotProduct', 'BaseAlpha', 'UnaryBeta', 'MarginalDists', 'BinaryBeta'], bounded='random tunable graphs'),
    'C15': dict(contracts=['TrainSetCtor','TrainSetGet','IterCtor','MakeSubset','MakeIter','IterSize','ForEachSample'], bounded='random sample sets'),
    'C16': dict(contracts=[], bounded='random models and train sets of up to 60 rows, round trips in memory and through files'),
    'C17': dict(contracts=['FindPositions', 'ObservedVars', 'HiddenVars'], bounded='random conditional models of up to 7 variables with up to 6 evidences'),
}

# properties that are only partly under contract: what is left to the bounded stand-in
for _p, _o in {
    'C09': ['compute_clusters (list of sets with iterators as map values)'],
    'C10': ['propagateBelief and message_passing as a whole (tasks are function objects run by the pool)'],
    'C11': ['message_passing, BaselineLoopyPropagator (tasks run by the pool)', 'getJointMarginalDistribution, marginalQuery (locations hold iterators)', 'updateConnectivity'],
    'C12': ['Pool and Worker (threads, atomics)', 'compute_loopy_order, make_sampling_tasks'],
    'C13': ['makeSamplerNodes, make_sampling_tasks, makeSamples (pointers into a vector of integers)', 'the generator of the standard library'],
    'C14': ['addTunableFactor, makeTuner, findTuner', 'RandomField::getWeightsGradient_ (tasks run by the pool)'],
    'C16': ['the exporter and the importer proper (nlohmann::json documents)', 'text streams'],
    'C17': ['absorb, replaceIfNeeded, HiddenObservedTuner (stores an iterator of a map)', 'getWeightsGradient_, makeTrainSet'],
}.items(): PROPS[_p].update(level='other', outside=_o)

# contracts whose loop invariants are known for one form of the loop only: an obligation that fails there is searched for a failing input
# like any other one, but it is reported as undecided, not as a violation, when none is found (another form of the loop may be right)
FORM_BOUND = {'RemoveMany', 'RemoveAll'}
