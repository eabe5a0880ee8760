import flavio
from flavio import Observable, Measurement
def args_for(name):
    o=Observable[name]; a=o.arguments
    if a is None: return ()
    a=tuple(a)
    for m in Measurement.instances.values():
        for p in m.all_parameters:
            if isinstance(p,tuple) and p[0]==name: return p[1:]
    tau='tau' in name
    D = '(D' in name
    Kpi='(K' in name
    if a==('q2min','q2max'):
        if tau: return (14.5,17.) if ('D' not in name) else (5.,8.)
        if D: return (0.5,1.0)
        return (1.1,6.)
    if a==('q2',):
        if tau: return (15.,) if 'D' not in name else (6.,)
        if D: return (0.7,)
        return (3.,)
    d={('clmin','clmax'):(-0.2,0.4),('cVmin','cVmax'):(-.2,.4),('phimin','phimax'):(0.3,1.1),('cl',):(.3,),('cV',):(.3,),('phi',):(.8,),('me_E',):(0.3,),('E',):(200.,),('E','thetamin','thetamax'):(200.,0.5,1.),
    ('CeFFij','CeFFji','CeFFtildeij','CeFFtildeji'):(1e-3,2e-3,3e-3,1e-3),('CeGGij','CeGGji'):(1e-3,2e-3),('qmin','qmax'):(500,800),('mTmin','mTmax'):(500,800)}
    return d[a]


def more_args(name):
    """several argument tuples far apart (low and high q2 for rates)"""
    o = Observable[name]
    if o.arguments is None:
        return [()]
    res = {args_for(name)}
    al = {p[1:] for m in Measurement.instances.values() for p in m.all_parameters if isinstance(p, tuple) and p[0] == name}
    if al:
        al = sorted(al)
        res |= {al[0], al[-1]}
    b_to_light = name.split('(')[-1].split('->')[0] in ('B0', 'B+', 'Bs', 'B', 'Lambdab') and any(
        x in name for x in ('mumu', 'ee', 'pilnu', 'rholnu', 'omegalnu', 'munu', 'enu')) and 'D' not in name
    if tuple(o.arguments) == ('q2',) and b_to_light and 'tau' not in name:
        res |= {(2.5,), (16.5,)}
    if tuple(o.arguments) == ('q2min', 'q2max') and b_to_light and 'tau' not in name:
        res |= {(1.5, 2.5), (15.5, 16.5)}
    return sorted(res)
