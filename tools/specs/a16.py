ID="c16-check-when-logged"; PROPERTY="C16"
NEEDS="a convolutional barycenter stopped by its tolerance, called once with and once without log"
BREAKS="the convolutional barycenter looks at its error less often when nobody reads it, so log=True changes the result"
EDITS=[("ot/bregman/_convolutional.py","""        if ii % 10 == 9:
            err = nx.sum(nx.std(V * KU, axis=0))
            # log and verbose print
            if log:
                log["err"].append(err)
            if verbose:
                _print_report(ii, err)
            if err < stopThr:
                break

    else:
        if warn:
            warnings.warn(_warning_msg)
    if log:
        log["niter"] = ii
        log["U"] = U
        log["V"] = V
        return bar, log
    else:
        return bar


def _convolutional_barycenter2d_log(""","""        # the error is expensive: look at it less often when it is not recorded
        if ii % (10 if log is not False else 50) == 9:
            err = nx.sum(nx.std(V * KU, axis=0))
            # log and verbose print
            if log:
                log["err"].append(err)
            if verbose:
                _print_report(ii, err)
            if err < stopThr:
                break

    else:
        if warn:
            warnings.warn(_warning_msg)
    if log:
        log["niter"] = ii
        log["U"] = U
        log["V"] = V
        return bar, log
    else:
        return bar


def _convolutional_barycenter2d_log(""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
A = r.rand(2, 8, 8) + 0.1
A /= A.sum((1, 2), keepdims=True)
p = ot.bregman.convolutional_barycenter2d(A, 0.02, stopThr=1e-4)
q, l = ot.bregman.convolutional_barycenter2d(A, 0.02, stopThr=1e-4, log=True)
e = np.abs(p - q).max()
print(e, l["niter"])
sys.exit(int(e > 0))
'''
