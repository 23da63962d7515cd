//@ prop C36
//@ srcs src/hashtable/hashtab.c
//@ default unwind=5 timeout=600 mem=8
//@ job name=ops entry=h_ops for=J:0..15 bound="an insert and then any of insert, replace, probe, removal and then lookup, apply, remove_if or delete, locks counted, over 3 keys with every 32-bit hash of each (all collisions) and every seed, in a table of 2 buckets" D=N=2,F=0,GROW=0,REF=9,O={J%4*4},LOCKS=1,ST={J//4}
//@ job name=refuse entry=h_ops for=J:0..3 bound="the same with memory refused at the first or the second operation" D=N=2,F=0,GROW=0,REF={J%2+1},O={J//2*8},LOCKS=1,ST=0
//@ job name=grow entry=h_ops for=J:0..2 bound="the same with the table growing from 2 to 4 buckets when both buckets are used" D=N=2,F=50,GROW=1,REF=9,O={J*4},LOCKS=1,ST=0
//@ job name=growref entry=h_ops bound="the same with memory refused when the table wants to grow" D=N=2,F=50,GROW=0,REF=9,O=0,LOCKS=1,ST=0
#include "htab.c"
