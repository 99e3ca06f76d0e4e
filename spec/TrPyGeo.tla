------------------------------ MODULE TrPyGeo ------------------------------
(* Conformance of multilinear geometries seen from Python. *)
EXTENDS PyNames, TrGeom
PyGeoVerdict(e) ==
  IF e.text \notin PyNames(TypeOfId(e.m, e.id)) THEN "type"
  ELSE MLVerdict([type |-> <<e.m, e.id, FALSE>>, rtype |-> <<e.m, e.id, FALSE>>] @@ e)
=============================================================================
