// The library's headers for C++; not all of them close the linkage they open, so it is given here.
#pragma once
#include <assert.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <alloca.h>
#include <talloc.h>
#include <json-c/json.h>
#include "handlebars.h"
#undef HBS_EXTERN_C_START
#undef HBS_EXTERN_C_END
#define HBS_EXTERN_C_START
#define HBS_EXTERN_C_END
extern "C" {
#include "handlebars_memory.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_value_handlers.h"
#include "handlebars_map.h"
#include "handlebars_stack.h"
#include "handlebars_ptr.h"
#include "handlebars_closure.h"
#include "handlebars_json.h"
#include "handlebars_vm.h"
}
