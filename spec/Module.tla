------------------------------- MODULE Module -------------------------------
(* The Python module: which calls can be made, what values they hand to the   *)
(* library, and how long the handles of vertices and faces are good.          *)
(*                                                                            *)
(* A value is <<type, as given, as a float, as a truth value>>, all strings.  *)
EXTENDS Integers, Sequences, FiniteSets

P(n, t) == [n |-> n, t |-> t, d |-> "", opt |-> FALSE]
O(n, t, d) == [n |-> n, t |-> t, d |-> d, opt |-> TRUE]

\* signatures: parameters in order, with the value of those left out
Sig(f) ==
  CASE f = "smooth_laplacian" ->
         <<P("mesh", "mesh"), O("epsilon", "float", "1.0"), O("cotangent_weight", "bool", "False"), O("iterations", "int", "3")>>
    [] f = "smooth_taubin" ->
         <<P("mesh", "mesh"), O("shrink", "float", "0.5"), O("inflate", "float", "0.53"), O("iterations", "int", "3")>>
    [] f = "implicit_fairing" ->
         <<P("mesh", "mesh"), O("epsilon", "float", "1.0"), O("iterations", "int", "1")>>
    [] f = "denoise_normal_gaussian" ->
         <<P("mesh", "mesh"), O("sigma", "float", "0.2"), O("iterations", "int", "3")>>
    [] f = "denoise_normal_bilateral" ->
         <<P("mesh", "mesh"), O("sigma_c", "float", "0.2"), O("sigma_s", "float", "0.1"), O("iterations", "int", "3")>>
    [] f = "denoise_l0_smooth" ->
         <<P("mesh", "mesh"), O("alpha", "float", "0.1"), O("beta", "float", "0.001")>>
    [] f = "remesh_triangular" ->
         <<P("mesh", "mesh"), O("short_length", "float", "0.8"), O("long_length", "float", "1.333"),
           O("angle_keep_less_than", "float", "0.0"), O("iterations", "int", "5"), O("verbose", "bool", "False")>>
    [] f = "simplify_qem" ->
         <<P("mesh", "mesh"), P("n_triangles", "int"), O("n_trials", "int", "10"), O("verbose", "bool", "False")>>
    [] f = "hole_fill_min_dihedral" ->
         <<P("mesh", "mesh"), P("face", "face"), O("dihedral_bound", "float", "3.141592653589793")>>
    [] f = "hole_fill_advancing_front" -> <<P("mesh", "mesh"), P("face", "face")>>
    [] f = "hole_fill_context_coherent" -> <<P("mesh", "mesh"), O("maxiters", "int", "200")>>
    [] f = "get_hausdorff_distance" -> <<P("mesh0", "mesh"), P("mesh1", "mesh")>>
    [] f = "get_per_vertex_shortest_distances" -> <<P("src", "mesh"), P("dst", "mesh")>>
    [] f = "get_mesh_laplacian" -> <<P("mesh", "mesh"), P("type", "laplace")>>
    [] f = "get_heat_kernel_signatures" -> <<P("mesh", "matrix"), O("K", "int", "300"), O("n_times", "int", "100")>>
    [] f \in {"get_principal_curvatures", "get_principal_curvatures_with_derivatives", "get_feature_line_field",
              "get_feature_line_field_with_flags"} -> <<P("mesh", "mesh"), O("smooth_tensors", "bool", "False")>>

Names == {"smooth_laplacian", "smooth_taubin", "implicit_fairing", "denoise_normal_gaussian", "denoise_normal_bilateral",
          "denoise_l0_smooth", "remesh_triangular", "simplify_qem", "hole_fill_min_dihedral", "hole_fill_advancing_front",
          "hole_fill_context_coherent", "get_hausdorff_distance", "get_per_vertex_shortest_distances", "get_mesh_laplacian",
          "get_heat_kernel_signatures", "get_principal_curvatures", "get_principal_curvatures_with_derivatives",
          "get_feature_line_field", "get_feature_line_field_with_flags"}

\* functions that only look
Looks(f) == f \in {"get_hausdorff_distance", "get_per_vertex_shortest_distances", "get_mesh_laplacian",
                   "get_heat_kernel_signatures", "get_principal_curvatures", "get_principal_curvatures_with_derivatives",
                   "get_feature_line_field", "get_feature_line_field_with_flags"}

\* the C++ interface has the same values for arguments left out, except for the
\* number of iterations of the normal filters
CppDefault(f, k) ==
  IF f \in {"denoise_normal_gaussian", "denoise_normal_bilateral"} /\ Sig(f)[k].n = "iterations" THEN "5" ELSE Sig(f)[k].d

-----------------------------------------------------------------------------
\* can this value be given for this parameter, and what arrives
Fits(p, v) ==
  CASE p.t = "float" -> v[1] \in {"float", "int", "bool"}
    [] p.t = "int" -> v[1] \in {"int", "bool"}
    [] p.t = "bool" -> v[1] \in {"bool", "int", "float"}
    [] OTHER -> v[1] = p.t
Arrives(p, v) == IF p.t = "float" THEN v[3] ELSE IF p.t = "bool" THEN v[4] ELSE v[2]

\* arguments by position, then by name (pairs), then left out
ByName(kw, n) == {j \in 1..Len(kw) : kw[j][1] = n}
Possible(s, pos, kw) ==
  /\ Len(pos) <= Len(s)
  /\ \A j \in 1..Len(kw) : \E k \in (Len(pos) + 1)..Len(s) : s[k].n = kw[j][1]
  /\ \A i, j \in 1..Len(kw) : kw[i][1] = kw[j][1] => i = j
  /\ \A k \in (Len(pos) + 1)..Len(s) : s[k].opt \/ ByName(kw, s[k].n) # {}
  /\ \A k \in 1..Len(pos) : Fits(s[k], pos[k])
  /\ \A j \in 1..Len(kw) : \A k \in 1..Len(s) : s[k].n = kw[j][1] => Fits(s[k], kw[j][2])
Bind(s, pos, kw) ==
  [k \in 1..Len(s) |->
     IF k <= Len(pos) THEN Arrives(s[k], pos[k])
     ELSE LET J == ByName(kw, s[k].n)
          IN  IF J # {} THEN Arrives(s[k], kw[CHOOSE j \in J : TRUE][2]) ELSE s[k].d]
=============================================================================
