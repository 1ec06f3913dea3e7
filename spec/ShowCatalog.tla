----------------------------- MODULE ShowCatalog -----------------------------
(* Prints the catalog, for the harness (harness/common.py, catalog()). *)
EXTENDS Catalog, Json
ASSUME PrintT("CATALOG " \o ToJson(Catalog))
=============================================================================
