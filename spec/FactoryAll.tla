----------------------------- MODULE FactoryAll -----------------------------
(* Every history of the factory.                                             *)
EXTENDS Base
CONSTANTS Names, Models, Keys, Messages, Outcomes, MaxOps, Threads
VARIABLES st
All(X) == X
INSTANCE Factory WITH Pick <- All
=============================================================================
