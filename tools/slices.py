"""Which slices of the specification decide which property."""
DAO_SUBST = {'Users': 'MUsers', 'Assets': 'MAssets', 'RewAssets': 'MRew', 'Cfgs': 'MCfgs', 'OpSet': 'MOps'}
SLICES = {}
PROPS = {}
NA = {}


def S(name, mod, quick, thorough=None, **k):
    SLICES[name] = dict(mod=mod, quick=quick, thorough=thorough or {}, **k)


def P(name, slices, obs):
    PROPS[name] = dict(slices=slices.split(), obs=set(obs.split()))



COMMON = ['I_NonNeg', 'I_G02', 'I_G08', 'I_G10', 'A_G04', 'A_G10', 'A_E02']
V = ['I_Conserve', 'I_G01', 'I_G02b', 'I_M01']
VA = ['A_G02', 'A_G03', 'A_G08', 'A_G05', 'A_G05b', 'A_M02', 'A_E01', 'A_E01b', 'A_T01', 'A_R01']
BASE = ['I_NonNeg', 'I_G02', 'I_G08', 'I_G10']
BASEA = ['A_G04', 'A_G10', 'A_E02']


def D(name, quick, thorough=None, invs='', acts='', **k):
    """a slice of the DAO specification"""
    drop = k.pop('drop', '').split()
    S(name, 'MC' + k.pop('mod', name), quick, thorough, invs=[i for i in BASE + V + invs.split() if i not in drop], acts=BASEA + VA + acts.split(), **k)


D('Votes', dict(depth=4, reps=2), dict(depth=5))
D('Tally', dict(depth=6), consts={'Deep': False})
D('Early', dict(depth=5), dict(depth=6))
D('Polls', dict(depth=5), dict(depth=6))
D('Voters', dict(depth=3), dict(depth=4))
D('Deposits', dict(depth=5), dict(depth=7), invs='I_G06', acts='A_G06')
D('Admit', dict(depth=2), dict(depth=2))
D('Council', dict(depth=4), dict(depth=5))
D('CouncilActs', dict(depth=2), dict(depth=3))
D('Acts', dict(depth=1), dict(depth=1))
D('Acts2', dict(depth=2), dict(depth=2))
D('Rejected', dict(depth=5), dict(depth=6))
D('GovCfg', dict(depth=2), dict(depth=3))

P('G01', 'Tally', 'props meta')
P('G02', 'Votes Polls', 'props w total')
P('G03', 'Voters Votes', 'props')
P('G04', 'Early', 'props meta')
P('G09', 'Votes Early ManyV ManyP', 'props pfilter')
P('G06', 'Deposits', 'bal nft props')
P('G07', 'Admit Deposits', 'props pacts bal nft')
P('G08', 'Council CouncilActs', 'props cw ctotal cmembers council meta wl nwl')
ALL = 'bal nft w cw total ctotal members cmembers ul props gov council meta info comps wl nwl admin minw rew att log code'
P('G05', 'Acts Rejected', ALL)
P('G10', 'GovCfg Acts FacReqG', 'gov ul props')
P('G11', 'Acts Acts2', ALL)

D('Stake', dict(depth=4), dict(depth=6))
D('Batch', dict(depth=4), dict(depth=5))
D('Nft', dict(depth=5), dict(depth=6), invs='I_M03', obs='nstake')
D('Msig', dict(depth=3), dict(depth=3))
P('M01', 'Stake Batch Nft', 'w total members bal nft claims')
P('M02', 'Stake Nft Batch', 'claims rclaims bal nft ul')
P('M03', 'Nft', 'nft w total claims')
P('M04', 'Msig', 'w cw total ctotal members cmembers')
P('M05', 'Stake Msig', 'hist chist total ctotal')
D('Spread', dict(depth=5), dict(depth=6))
D('Rew', dict(depth=4), dict(depth=6), invs='I_R02', acts='A_R01b')
D('Rew5', dict(depth=5), dict(depth=6), invs='I_R02', acts='A_R01b', mod='Rew')
D('Round', dict(depth=5), dict(depth=6), drop='I_Conserve', obs='rewi earned cover', less='rew bal')
D('RewWhite', dict(depth=3), dict(depth=4), invs='I_R02')
P('M06', 'Spread', 'w total props rew')
P('R01', 'Rew Round', 'rew bal')
P('R02', 'Rew Round', 'rew bal cover')
P('R03', 'Rew5', 'rew minw bal')
P('R04', 'RewWhite', 'rew bal')
D('Paging', dict(depth=1), dict(depth=2))
S('PagingN', 'MCPagingN', dict(depth=1), dict(depth=2), invs=['I_M03'], acts=[], obs='nstake')
D('ManyV', dict(depth=2), dict(depth=3))
D('ManyP', dict(depth=1), dict(depth=2))
D('Tre', dict(depth=3), dict(depth=4))
D('White', dict(depth=3), dict(depth=3))
D('WhiteL', dict(depth=1), dict(depth=2))
D('Attest', dict(depth=4), dict(depth=5))
D('Upg', dict(depth=3), dict(depth=4))
D('Meta', dict(depth=2), dict(depth=3))
P('M07', 'Paging PagingN Msig Nft', 'members total w')
P('T01', 'Tre', 'bal admin rew')
P('T02', 'White WhiteL', 'wl nwl')
P('E01', 'Attest', 'att props w claims bal nft')
P('E02', 'Upg', 'info code log comps')
P('E04', 'Meta', 'meta info comps code att')

REG = {'Cfgs': 'MCfgs', 'OpSet': 'MOps', 'Probes': 'MProbes'}
for n, q, t in [('Reg', 4, 5), ('RegEdit', 1, 2), ('RegMany', 2, 2)]:
    S(n, 'MC' + n, dict(depth=q), dict(depth=t), invs=['I_E03'], acts=['A_E03'], subst=REG)
P('E03', 'Reg RegEdit RegMany', 'reg')

S('Auth', 'MCAuth', dict(depth=2), dict(depth=3), invs=['I_E05'], acts=[], subst={'Cfgs': 'MCfgs', 'OpSet': 'MOps'})
P('E05', 'Auth', 'owners')

OUTS = {'Cfgs': 'MCfgs', 'OpSet': 'MOps', 'Chains': 'MChains'}
for n, q, t in [('Out', 5, 6), ('OutProp', 2, 3)]:
    S(n, 'MC' + n, dict(depth=q), dict(depth=t), invs=['I_X01'], acts=['A_X01', 'A_X02'], subst=OUTS)
S('OutMany', 'MCOutMany', dict(depth=1), dict(depth=2), invs=['I_X01'], acts=['A_X01', 'A_X02'], subst=dict(OUTS, ChainSeq='MChainSeq'))
S('OutPropG', 'MCOutProp', dict(depth=2), dict(depth=3), invs=['I_X01'], acts=['A_X01', 'A_X02'], subst=OUTS, less=ALL, obs='remote sent')
PROPS['G11']['slices'].append('OutPropG')
P('X01', 'Out OutProp OutMany', 'remote sent')
P('X02', 'Out', 'remote sent')

S('Bridge', 'MCBridge', dict(depth=5, reps=2), dict(depth=7, reps=2), invs=['I_X03'], acts=['A_X03'], subst={'Cfgs': 'MCfgs', 'OpSet': 'MOps', 'Users': 'MUsers'})
P('X03', 'Bridge', 'nft bridged')

FACT = {'Cfgs': 'MCfgs', 'OpSet': 'MOps', 'Users': 'MUsers'}
for n, q, t in [('FacMany', 3, 4), ('FacReq', 2, 3), ('FacCfg', 3, 4)]:
    S(n, 'MC' + n, dict(depth=q), dict(depth=t), invs=['I_F02'], acts=['A_F01', 'A_F02'], subst=FACT)
S('FacPage', 'MCFacPage', dict(depth=1), dict(depth=2), invs=['I_F02'], acts=['A_F01', 'A_F02'], subst=FACT, less='daos', obs='ids')
S('FacReqG', 'MCFacReq', dict(depth=1), dict(depth=1), invs=['I_F02'], acts=['A_F01', 'A_F02'], subst=FACT, less='gov ul props council', obs='daos')
P('F01', 'FacMany FacCfg FacPage', 'daos fac')
P('F02', 'FacReq', 'daos fac')

FSUB = dict(DAO_SUBST, Cfgs='FCfgs')
D('Face', dict(depth=4), dict(depth=5), obs='face')
FOPS = [('Votes', 3, 4), ('Deposits', 4, 5), ('Council', 3, 4), ('Nft', 3, 4), ('Stake', 3, 4), ('Batch', 3, 4), ('Msig', 2, 3), ('Early', 4, 5)]
for n, q, t in FOPS:
    D('F' + n, dict(depth=q), dict(depth=t), subst=FSUB)
S('FOutProp', 'MCFOutProp', dict(depth=2), dict(depth=3), invs=['I_X01'], acts=['A_X01', 'A_X02'], subst=dict(OUTS, Cfgs='FCfgs', OpSet='FOps'), less=ALL + ' claims', obs='remote sent fout')
for n in ['ManyP', 'ManyV', 'WhiteL', 'Paging']:
    D('P' + n, dict(depth=0), dict(depth=1), mod=n, obs='face', less='bal nft w cw total claims props meta wl')
D('FCounM', dict(depth=2), dict(depth=3), subst=dict(DAO_SUBST, Cfgs='FCfgs', OpSet='FOps'), obs='face cmembers')
P('V01', 'Face FOutProp FCounM PManyP PManyV PWhiteL PPaging ' + ' '.join('F' + n for n, _, _ in FOPS), 'bal nft w cw total claims props meta wl')

D('Hooks', dict(depth=4), dict(depth=5), acts='A_M08 A_M08b A_M08c')
D('Alone', dict(depth=4), dict(depth=6), acts='A_M08 A_M08b A_M08c', obs='phist told')
P('M08', 'Hooks Alone', 'told w cw total ctotal')

D('Legacy', dict(depth=5), dict(depth=6), invs='I_T03', acts='A_T03')
D('LegMany', dict(depth=3), dict(depth=5), invs='I_T03', acts='A_T03', subst=dict(DAO_SUBST, Cfgs='XCfgs', OpSet='XOps', Users='XUsers'), drop='I_G02b')
P('T03', 'Legacy LegMany', 'leg w total claims bal nft rew')

D('Walk', dict(sim=(22, 50), depth=100, mem='4g'), dict(sim=(1500, 80), budget=2000))
D('RewMany', dict(depth=2), dict(depth=3), invs='I_R02')
D('ClaimMany', dict(depth=3), dict(depth=5))


def more(prop, slices='', obs=''):
    PROPS[prop]['slices'] += [s for s in slices.split() if s not in PROPS[prop]['slices']]
    PROPS[prop]['obs'] |= set(obs.split())


more('G01', 'Council Walk')
more('G02', 'ManyP ManyV Spread Walk')
more('G03', 'Polls Attest Council Walk')
more('G04', 'Council Polls Walk')
more('G05', 'Acts2 Walk')
more('G06', 'Rejected Walk')
more('G07', 'CouncilActs Walk', 'gov')
more('G08', 'Acts Walk')
more('G09', 'Council Walk')
more('G10', 'Walk', 'council')
more('G11', 'Walk')
more('M01', 'ClaimMany Spread Walk')
more('M02', 'ClaimMany Walk', 'w')
more('M03', 'PagingN Walk', 'rclaims')
more('M04', 'Acts Council Walk')
more('M05', 'Polls Alone Walk', 'props')
more('M06', 'Polls ManyP Msig Walk', 'members')
more('M07', 'Stake Walk', 'cmembers ctotal')
more('R01', 'RewMany Spread Walk')
more('R02', 'RewMany Walk')
more('R03', 'Walk')
more('R04', 'Tre Walk', 'wl')
more('T01', 'Acts RewMany Walk')
more('T02', 'Acts Walk')
more('E01', 'Voters Walk', 'rew')
more('E02', 'Acts Walk')
more('E04', 'Acts Attest Walk')
