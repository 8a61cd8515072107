ID="c15-map-cache"; PROPERTY="C15"
NEEDS="an estimator fitted again after it has transformed new samples"
BREAKS="new samples are moved with the mapping of the earlier fit"
EDITS=[("ot/da.py","""                    # transport the source samples
                    transp = self.coupling_ / nx.sum(self.coupling_, axis=1)[:, None]
                    transp = nx.nan_to_num(transp, nan=0, posinf=0, neginf=0)
                    transp_Xs_ = nx.dot(transp, self.xt_)

                    # define the transported points
                    transp_Xs_ = transp_Xs_[idx, :] + Xs[bi] - self.xs_[idx, :]

                    transp_Xs.append(transp_Xs_)

                transp_Xs = nx.concatenate(transp_Xs, axis=0)

            return transp_Xs

    def transform_labels(self, ys=None):
        r\"\"\"Propagate source labels :math:`\\mathbf{y_s}` to obtain estimated target labels as in
        :ref:`[27] <references-basetransport-transform-labels>`.
""","""                    # transport the source samples, once for all the batches
                    key = (self.xs_.shape, self.xt_.shape)
                    if getattr(self, "_moved", (None, None))[0] != key:
                        transp = (
                            self.coupling_ / nx.sum(self.coupling_, axis=1)[:, None]
                        )
                        transp = nx.nan_to_num(transp, nan=0, posinf=0, neginf=0)
                        self._moved = (key, nx.dot(transp, self.xt_))
                    transp_Xs_ = self._moved[1]

                    # define the transported points
                    transp_Xs_ = transp_Xs_[idx, :] + Xs[bi] - self.xs_[idx, :]

                    transp_Xs.append(transp_Xs_)

                transp_Xs = nx.concatenate(transp_Xs, axis=0)

            return transp_Xs

    def transform_labels(self, ys=None):
        r\"\"\"Propagate source labels :math:`\\mathbf{y_s}` to obtain estimated target labels as in
        :ref:`[27] <references-basetransport-transform-labels>`.
""")]
DEMO='''
import sys
import numpy as np
import ot
r = np.random.RandomState(0)
mk = lambda: ot.da.EMDTransport()
A, B, C, D, new = (r.randn(6, 2) for _ in range(5))
t = mk().fit(Xs=A, Xt=B)
t.transform(Xs=new)
t.fit(Xs=C, Xt=D + 3)
e = np.abs(t.transform(Xs=new) - mk().fit(Xs=C, Xt=D + 3).transform(Xs=new)).max()
print(e)
sys.exit(int(e > 1e-9))
'''
