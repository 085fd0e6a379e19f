//@ desc: a value that holds an object or a property list arrives under its name with the same object or list
//@ functions: rbusValue_appendToMessage rbusValue_initFromMessage rbusProperty_initFromMessage rbusPropertyList_appendToMessage rbusPropertyList_initFromMessage rbusObject_appendToMessage rbusObject_initFromMessage
//@ sources: src/rbus/rbus.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_filter.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 8
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,vf_harness.0:30
//@ flags: --object-bits 12
//@ kind: bounded
//@ bound: the enumerated shapes, contents arbitrary
//@ timeout: 100
//@ trusted: bus messages by their contract (C11); values by their contract (C13: what is set is what is got)
//@ variant: valobj -DS=6
//@ variant: vallist -DS=7
#include "vf_valc.h"
#include "tree.c"
