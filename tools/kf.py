#!/usr/bin/env python3
"""Regenerates known_findings.json: one fixed entry per fix commit of /repo (the maps below name the property)."""
import subprocess,json
M={"programs of arrays":"C01","is_feasible of an integer":"C17","text of a program":"C12","the empty basis":"C06","verify_infeasibility of":"C04", # message prefix -> property
"programs copy":"C08","clear_steps":"C09","is_canonical_form_for":"C06","is_feasible_basic":"C06","compute_basic":"C06","solve started":"C01","unboundedness cert":"C02","ratio test":"C03","a failing simplex":"C08","two_phase_simplex failed":"C02","is_feasible rejected":"C10","comparing two":"C09","is_solution_optimal":"C10","add_variable":"C09","to_rref":"C14","is_in_rref":"C14","graph_polyhedron":"C15","branch and bound":"C16","integral_variables was":"C16","integer programs accepted":"C17","copies of integer":"C17","steps of is_basic":"C37","steps of an integer":"C37","solving a program without":"C01","solve returned the":"C16","integer program text":"C17","integer programs shared":"C17","maximizing an":"C18","unconstrained programs":"C18","descent":"C18","expression":"C19","a named":"C19","unsupported":"C19","subject_to":"C20","a rejected where":"C20","integer formulations":"C34","remove_edge":"C21","copies of a graph":"C21","is_cyclic":"C22","partition":"C22","random traversal":"C22","depth first":"C22","cut of a vertex":"C23","formulate_max":"C25","shortest_path":"C24","formulate_short":"C24","cut keeps":"C23","cuts of a node":"C23","ncut":"C23","add_arc":"C26","preflow_push failed":"C27","residuals":"C28","maximum flows":"C27","LinearParser":"C30","preflow_push never":"C27","the text of a mixed":"C12","integer programs accepted integral":"C11","integer programs compared":"C17","a constraint with":"C19","complex arrays":"C11","programs accepted constants":"C11","edits with":"C09","is_basis mistook":"C06","comparing a program":"C09","comparing a graph":"C21","the sign of an unused":"C20","formulations refused numpy":"C19","descent methods failed on grad":"C18","rounding residue":"C36","verifiers rejected":"C02","finding a basis":"C02","steps were recorded with":"C13","graph parser accepted":"C29","linear parser accepted":"C30"}
out=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,m=l.split(" ",1)
    if not m.startswith("fix: "): continue
    m=m[5:]
    k=[p for p in M if m.startswith(p)]
    if not k: print("??",h,m); continue
    pid=M[max(k,key=len)]
    out.append({"id":f"F-{h}","status":"fixed","property":pid,"commit":h,"what":m,"line":f"fixed: property={pid} {h} {m}"})
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1)
print(len(out))
