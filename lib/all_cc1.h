/* every type of cc1, complete and the same in each translation unit: CBMC's
 * linker otherwise takes `struct type' of two files for different types */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <assert.h>
#include "util/where.h"
#include "util/util.h"
#include "util/dynarray.h"
#include "util/dynmap.h"
#include "cc1/cc1_where.h"
#include "cc1/type.h"
#include "cc1/expr.h"
#include "cc1/stmt.h"
#include "cc1/decl.h"
#include "cc1/decl_init.h"
#include "cc1/sue.h"
#include "cc1/sym.h"
#include "cc1/funcargs.h"
#include "cc1/attribute.h"
#include "cc1/const.h"
#include "cc1/strings.h"
#include "cc1/cc1.h"
#include "cc1/fold.h"
#include "cc1/type_is.h"
#include "cc1/type_nav.h"
#include "cc1/label.h"
#include "cc1/out/out.h"
#include "cc1/gen_asm.h"
