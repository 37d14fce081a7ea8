"""tcv: a small deductive verifier for the tensor code of evoMPS.

The functions of /repo are executed symbolically: the source text of the module is read from /repo on every run,
loops are rewritten mechanically (tcv.load) so that a loop over a symbolic range becomes one inductive step, and the
numerical library is replaced by a symbolic one (tcv.shim) whose arrays are tensor networks with symbolic dimensions
(tcv.net, tcv.arr).  See DESIGN.md.
"""
