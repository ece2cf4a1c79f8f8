"""Proof units: one driver translation unit, its opaque types and the modules holding its contracts."""
UNITS = {
    'text': dict(driver='coefop.cc', opaque=['VNum:ring', 'VOp:ring'], contracts=['coefop', 'sparmat', 'text'], kw=dict(strings='seq'), generic={'SparMat::': 'sparmat'}),
    'parser': dict(driver='parser.cc', opaque=['nlohmann::json'], contracts=['parser'], kw=dict(stubs=True)),
    'duovec': dict(driver='duovec.cc', opaque=['VElem'], contracts=['duovec']),
    'opmat': dict(driver='coefop.cc', opaque=['VNum:ring', 'VOp:ring'], contracts=['coefop', 'sparmat', 'opmat'], generic={'SparMat::': 'sparmat'}),
    'fsm': dict(driver='fsm.cc', opaque=['VNum:ring', 'VOp:ring', 'VObj'], contracts=['fsm', 'coefop', 'sparmat'], generic={'SparMat::': 'sparmat'}),
    'fsmmat': dict(driver='fsm.cc', opaque=['VNum:ring', 'VOp:ring', 'VObj'], contracts=['fsm', 'coefop', 'sparmat', 'opmat', 'fsmmat'], generic={'SparMat::': 'sparmat'}),
    'mpogen': dict(driver='mpogen.cc', opaque=['VNum:ring', 'VReal', 'VQN', 'qlten::QLTensor<VNum, VQN>', 'qlten::Index<VQN>', 'qlten::QNSector<VQN>'], contracts=['fsm', 'coefop', 'sparmat', 'opmat', 'fsmmat', 'mpogen'], kw=dict(stubs=True), generic={'SparMat::': 'sparmat', 'LabelConvertor::': 'fsm', 'FSM::': 'fsmmat', 'OpRepr::': 'coefop', 'CoefRepr::': 'coefop'}),
    'mps': dict(driver='mps.cc', opaque=['VNum:ring', 'VQN', 'qlten::QLTensor<VNum, VQN>', 'qlten::QLTensor<double, VQN>', 'qlten::Index<VQN>'], contracts=['mps'], kw=dict(stubs=True, strings='seq'), generic={'DuoVector::': 'duovec'}),
    'sparmat': dict(driver='sparmat.cc', opaque=['VElem'], contracts=['sparmat']),
    'coefop': dict(driver='coefop.cc', opaque=['VNum:ring', 'VOp:ring'], contracts=['coefop', 'sparmat']),
}
S = 'SparMat::'
CO = 'one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h'
FS = 'one_dim_tn/mpo/mpogen/fsm.h'
DV = 'one_dim_tn/framework/duovector.h'
D = 'DuoVector::'
CPP = 'CaseParamsParserBasic::'
KINDS = ('Int', 'Double', 'Char', 'Str', 'Bool', 'IntVec', 'SizeTVec', 'DoubleVec')
PROPS = {
    'P18': dict(unit='parser', contracts=[CPP + 'Parse' + k for k in KINDS] + [CPP + 'CaseParamsParserBasic', CPP + 'HoldsType'],
                falsifier='parser.cc', modes=['strict'], files=['case_params_parser.h'], cxxflags=['-std=c++17']),
    'P19': dict(unit='parser', contracts=[CPP + 'Has'] + [CPP + 'Parse' + k + 'Or' for k in KINDS] + [CPP + 'TryParse' + k for k in KINDS],
                falsifier='parser.cc', modes=['optional'], files=['case_params_parser.h'], cxxflags=['-std=c++17']),
    'P01': dict(unit='duovec', contracts=[D + n for n in ('DuoVector#copy', 'DuoVector#move', '~DuoVector', 'operator=#copy', 'operator=#move')],
                falsifier='duovec.cc', modes=['own'], files=[DV]),
    'P02': dict(unit='duovec', contracts=[D + n for n in ('DuoVector#size', 'operator[]#const', 'operator[]', 'operator()#const', 'operator()', 'front', 'back', 'cdata', 'alloc', 'dealloc', 'clear', 'size', 'empty')],
                falsifier='duovec.cc', modes=['slots'], files=[DV]),
    'P03': dict(unit='sparmat', contracts=[S + n for n in ('SparMat#default', 'SparMat#dims', 'SetElem', 'operator()', 'IsNull', 'Reserve')],
                falsifier='sparmat.cc', modes=['setget'], files=['one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h']),
    'P04': dict(unit='sparmat', contracts=[S + n for n in ('RemoveRow', 'RemoveCol')],
                falsifier='sparmat.cc', modes=['remove'], files=['one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h']),
    'P05': dict(unit='sparmat', contracts=[S + n for n in ('SwapTwoRows', 'SwapTwoCols', 'TransposeRows', 'TransposeCols')],
                falsifier='sparmat.cc', modes=['permute'], files=['one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h']),
    'P06': dict(unit='sparmat', contracts=[S + n for n in ('SparMat#copy', 'operator=', 'GetRow', 'GetCol', 'operator==')],
                falsifier='sparmat.cc', modes=['lines'], files=['one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h']),
    'P07': dict(unit='coefop', contracts=['CoefRepr::' + n for n in ('CoefRepr#default', 'CoefRepr#label', 'CoefRepr#list', 'CoefRepr#copy', 'CoefRepr#move', 'operator=#copy', 'operator=#move', 'GetCoefLabelList', 'operator==', 'operator!=', 'operator+=', 'operator+', 'Realize')] + ['ConcatenateTwoVec'],
                falsifier='coefop.cc', modes=['coef'], files=[CO]),
    'P08': dict(unit='coefop', contracts=['OpRepr::' + n for n in ('OpRepr#default', 'OpRepr#label', 'OpRepr#coef_label', 'OpRepr#lists', 'OpRepr#copy', 'operator=', 'GetCoefReprList', 'GetOpLabelList', 'operator==', 'operator!=', 'operator+=', 'operator+', 'Realize')],
                falsifier='coefop.cc', modes=['op'], files=[CO]),
    'P09': dict(unit='coefop', contracts=['SeparateCoefAndBase', 'GetOpReprCoef', 'CoefReprOpReprIncompleteMulti'],
                falsifier='coefop.cc', modes=['sep'], files=[CO]),
    'P10': dict(unit='opmat', contracts=['SparOpReprMat::' + n for n in ('SortRows', 'SortCols', 'GenSortRowsMapping_', 'GenSortColsMapping_')],
                falsifier='opmat.cc', modes=['sort'], files=[CO]),
    'P11': dict(unit='opmat', contracts=['SparOpReprMat::' + n for n in ('TryCatchRowCommonDivisorCoef', 'TryCatchColCommonDivisorCoef', 'RemoveRowCoef', 'RemoveColCoef', 'CalcRowOverlap_', 'CalcColOverlap_', 'CalcRowLinCmb', 'CalcColLinCmb')] + ['CalcSparOpReprMatRowLinCmb', 'CalcSparOpReprMatColLinCmb'],
                falsifier='opmat.cc', modes=['lines'], files=[CO]),
    'P12': dict(unit='opmat', contracts=[n + k for n in ('SparCoefReprMatSparOpReprMatIncompleteMulti', 'SparOpReprMatSparCoefReprMatIncompleteMulti') for k in ('', 'Kernel')],
                standin=['SparOpReprMatRowDelinearize', 'SparOpReprMatColDelinearize', 'SparOpReprMatRowCompresser', 'SparOpReprMatColCompresser'],
                falsifier='opmat.cc', modes=['mul', 'delin', 'compress'], files=[CO]),
    'P13': dict(unit='fsm', contracts=['FSM::' + n for n in ('FSM#ids', 'FSM#size', 'AddPath', 'GetFSMPaths', 'phys_size', 'fsm_size')],
                falsifier='fsm.cc', modes=['addpath'], files=[FS, CO]),
    'P14': dict(unit='fsmmat', contracts=['FSM::' + n for n in ('GenMatRepr', 'CastFSMPathToMatRepr_', 'CalcFSMSiteDims_', 'CalcFinalStatDimIdxs_', 'AddPath')], lemmas=['PathSum.lean'],
                falsifier='fsm.cc', modes=['matrepr'], files=[FS, CO]),
    'P15': dict(unit='fsmmat', contracts=['FSM::GenMatRepr'], level='exploration', secs=40,
                standin=['FSM::GenCompressedMatRepr'], falsifier='fsm.cc', modes=['compressed'], files=[FS, CO]),
    'P21': dict(unit='mpogen', contracts=['MPOGenerator::' + n for n in ('MPOGenerator#div', 'MPOGenerator#sites', 'AddTerm#ops', 'AddTerm#strings', 'AddTerm#pair')] + ['GenIdOpReprs'],
                falsifier='mpogen.cc', modes=['terms'], files=['one_dim_tn/mpo/mpogen/mpogen_impl.h', FS, CO], inc=['falsify/inc'], cxxflags=['-std=c++17']),
    'P22': dict(unit='mps', contracts=['FiniteMPS::' + n for n in ('FiniteMPS#sites', 'operator[]#const', 'operator[]', 'operator()#const', 'operator()', 'LeftCanonicalizeTen', 'RightCanonicalizeTen', 'LeftCanonicalize', 'RightCanonicalize', 'Centralize', 'GetCenter', 'GetTensCanoType', 'GetTenCanoType', 'Reverse')],
                lemmas=['ChainProduct.lean'], falsifier='mps.cc', modes=['canon'], files=['one_dim_tn/mps/finite_mps/finite_mps.h', 'one_dim_tn/mps/mps.h'], inc=['falsify/inc'], cxxflags=['-std=c++17']),
    'P23': dict(unit='mps', contracts=['TenVec::LoadTen', 'TenVec::DumpTen#const', 'TenVec::DumpTen#release', 'GenMPSTenName', 'MPS::Dump#const', 'MPS::Dump#release', 'MPS::Load', 'FiniteMPS::LoadTen', 'FiniteMPS::DumpTen'],
                falsifier='mps.cc', modes=['files'], files=['one_dim_tn/framework/ten_vec.h', 'one_dim_tn/mps/mps.h', 'one_dim_tn/mps/finite_mps/finite_mps.h'], inc=['falsify/inc'], cxxflags=['-std=c++17']),
    'P16': dict(unit='fsm', contracts=['FSMNode::' + n for n in ('operator<', 'operator>', 'operator==', 'Site', 'Stat', 'SetSite', 'SetStat', 'FSMNode#pair', 'FSMNode#copy', 'operator=')] + ['FSMPath::' + n for n in ('FSMPath', 'Node', 'Opr', 'AddNode', 'SetOpr')],
                falsifier='fsm.cc', modes=['nodes'], files=[FS]),
    'P29': dict(unit='text', contracts=['CoefRepr::ToString', 'OpRepr::ToString', 'OpRepr::OpLabelToString_'],
                falsifier='coefop.cc', modes=['text'], files=[CO]),
    'P17': dict(unit='fsm', contracts=['LabelConvertor::' + n for n in ('Convert', 'LabelConvertor#id', 'operator=', 'GetLabelObjMapping')],
                falsifier='fsm.cc', modes=['labels'], files=[FS]),
}
