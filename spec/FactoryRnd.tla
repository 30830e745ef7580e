----------------------------- MODULE FactoryRnd -----------------------------
(* Random long histories of the factory.                                     *)
EXTENDS Base
CONSTANTS Names, Models, Keys, Messages, Outcomes, MaxOps, Threads
VARIABLES st
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
INSTANCE Factory WITH Pick <- One
=============================================================================
