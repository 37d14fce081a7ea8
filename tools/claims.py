"""Per-property claims: level, technique text, notes, and the properties not claimed."""
TECH_DEFAULT = ("contract-based deductive verification of the real Python functions (symbolic execution of /repo's source, "
                "tensor-network normal form + z3), the same contracts evaluated at run time as bounded stand-in")
TECH = {}
LEVEL = {"C01": "proof", "C02": "proof", "C03": "proof"}
NOTE_DEFAULT = ("Function contracts discharged for all dimensions, entries and loop counts where the verifier reaches the function; "
                "object-level clauses rest on those contracts plus run-time contracts against a dense oracle, which are bounded and "
                "not counted as proved (see DESIGN.md).")
NOTE = {}
NA = {
    "C25": "accuracy of an adaptive floating-point Krylov iteration: no contract over exact arithmetic states it, and the verifier treats "
           "arithmetic as exact; the routine (sexpmv.py, after Expokit) has no algebraic postcondition within reach",
    "C26": "a statement about accumulated floating-point and integrator error over unbounded histories; there is no inductive invariant that "
           "holds exactly (the integrators do not conserve energy exactly)",
    "C27": "the compiled module (Cython) is not built here and the GPU module cannot be imported without pycuda; there is no running code to "
           "put under contract",
}
