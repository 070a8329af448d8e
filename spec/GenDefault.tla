---- MODULE GenDefault ----
EXTENDS HudiGen
MixDef == <<"insert","upsert","upsert","delete","compact","overwrite","drop","cluster","empty","step","step","step","step","step","step","step","step","step","step","torn","rollback","clean","archive","open">>
OrdDef == {-1, 1, 2, 3}
QsDef == <<"snap","asof","incr","slices","splits","ibetween","slread","islread","tl","schema">>
====
