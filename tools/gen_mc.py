#!/usr/bin/env python3
"""Writes the configurations of the exhaustive checks of NecoCore (spec/MC_*.cfg)."""
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
D = dict(CO='{c1, c2, c3}', START=3, CAPS='Caps', NM=0, NV=0, NW=0, NSG=0, DLS='DlInf', T=0, B=5, ASY='{FALSE}')
BASIC = ['Consistent', 'NeverWaits', 'Progress']
CFG = {
 # name: (constants, quick budget, thorough budget, alphabet, invariants, action properties)
 'Chan0': (dict(CAPS='Caps0', DLS='Dl1', T=1), 5, 8, 'send recv tryrecv close', 'ExactlyOnce NothingInvented NotLost InOrder Capacity ClosedDrains', 'NoSendAfterClose OnTime'),
 'Chan1': (dict(CAPS='Caps1', DLS='Dl1', T=1), 5, 8, 'send recv tryrecv close', 'ExactlyOnce NothingInvented NotLost InOrder Capacity ClosedDrains', 'NoSendAfterClose OnTime'),
 'ChanCancel': (dict(CAPS='Caps1', ASY='{FALSE, TRUE}'), 5, 7, 'send recv cancel', 'ExactlyOnce NothingInvented NotLost InOrder Capacity CancelOnce', 'CancelFirst'),
 'RecvOrder': (dict(CAPS='Caps0'), 5, 8, 'send recv bcast order', 'ExactlyOnce', 'RecvFifo'),
 'Select': (dict(CAPS='Caps01', DLS='Dl1', T=1), 4, 6, 'send select tryselect close', 'ExactlyOnce NothingInvented NotLost InOrder Capacity ClosedDrains SelectWaits', 'NoSendAfterClose'),
 'SelectCancel': (dict(CAPS='Caps00', ASY='{FALSE, TRUE}'), 4, 6, 'send select cancel recv', 'ExactlyOnce NothingInvented NotLost InOrder SelectWaits CancelOnce', 'CancelFirst'),
 'Bcast': (dict(CAPS='Caps01'), 4, 6, 'bcast recv select send close', 'BcastOnce ExactlyOnce NothingInvented Capacity', 'BcastCount'),
 'Gen': (dict(CAPS='Caps00', START=1, ASY='{FALSE, TRUE}'), 4, 6, 'start gyield gnext cancel exit', 'ExactlyOnce NothingInvented NotLost InOrder ClosedDrains', 'GenCloses'),
 'Lock': (dict(NM=1, DLS='Dl1', T=1), 6, 9, 'lock rdlock trylock tryrdlock unlock', 'Exclusion NoIdleLock NoLeakedLock', 'Fifo OnTime'),
 'LockCancel': (dict(NM=1), 6, 8, 'lock rdlock unlock cancel', 'Exclusion NoIdleLock NoLeakedLock CancelOnce', 'Fifo'),
 'LockAsync': (dict(NM=1, ASY='{TRUE}'), 6, 7, 'lock rdlock unlock cancel', 'NoIdleLock', 'Fifo'),
 'Cond': (dict(NM=1, NV=1, DLS='Dl1', T=1), 6, 9, 'lock unlock cwait csig cbc', 'Exclusion NoIdleLock NoLeakedLock CondCount', 'CondRelocks CondWakes'),
 'CondCancel': (dict(NM=1, NV=1), 6, 8, 'lock unlock cwait csig cancel', 'Exclusion NoIdleLock NoLeakedLock CondCount CancelOnce', 'CondRelocks CondWakes CancelFirst'),
 'Wg': (dict(NW=1, DLS='Dl1', T=1), 7, 10, 'wgadd wgdone wgwait', 'WgZero', 'WgOk OnTime'),
 'WgCancel': (dict(NW=1, ASY='{FALSE, TRUE}'), 5, 8, 'wgadd wgdone wgwait cancel', 'WgZero CancelOnce', 'WgOk CancelFirst'),
 'Cancel': (dict(DLS='Dl1', T=1), 5, 7, 'cancel sleep suspend setcs', 'CancelOnce', 'CancelFirst OnTime'),
 'CancelAsync': (dict(DLS='Dl1', T=1, ASY='{TRUE}'), 5, 7, 'cancel sleep suspend setcs', 'CancelOnce NoJoinDead', ''),
 'Clean': (dict(CO='{c1, c2}', START=2, ASY='{FALSE, TRUE}'), 5, 7, 'cancel suspend exit push', 'ReverseOrder AllRun NoneWithout', ''),
 'Join': (dict(START=1, DLS='Dl1', T=1, ASY='{FALSE, TRUE}'), 4, 6, 'start join cancel exit', 'NoJoinDead', 'JoinDone OnTime'),
 'Susp': (dict(DLS='Dl1', T=1, ASY='{FALSE}'), 5, 7, 'suspend resume cancel', 'CancelOnce', 'ResumeWakes ResumeOk OnTime'),
 'Time': (dict(DLS='Dl12', T=3, NM=1, CAPS='Caps0'), 4, 6, 'sleep suspend lock unlock recv', '', 'OnTime'),
 'Sig': (dict(NSG=2, CO='{c1, c2}', START=2, DLS='Dl1', T=1, ASY='{FALSE, TRUE}'), 3, 5, 'sigwait cancel', 'SignalsKept', ''),
 'Work': (dict(ASY='{FALSE, TRUE}'), 5, 8, 'work cancel', 'WorkOnce WorkOneAtATime', 'WorkDone'),
}
def main():
    for name, (c, q, th, ops, inv, props) in CFG.items():
        k = dict(D); k.update(c)
        for suffix, budget in (('', q), ('Big', th)):
            k['B'] = budget
            lines = ['SPECIFICATION Spec', 'CONSTANTS']
            for n, v in k.items():
                lines.append(f'  {n} {"<-" if n in ("CAPS", "DLS") else "="} {v}')
            lines.append('  OPS = {' + ', '.join(f'"{o}"' for o in ops.split()) + '}')
            lines.append('SYMMETRY Alike')
            lines.append('INVARIANTS ' + ' '.join(BASIC + inv.split()))
            if props:
                lines.append('PROPERTIES ' + ' '.join(props.split()))
            lines.append('CHECK_DEADLOCK FALSE')
            with open(os.path.join(SPEC, f'MC_{name}{suffix}.cfg'), 'w') as f:
                f.write('\n'.join(lines) + '\n')
if __name__ == '__main__':
    main()
