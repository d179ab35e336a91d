#include "osc_array.h"
#include "osc_atom_array_u.h"
#include "osc_atom_s.h"
#include "osc_atom_u.h"
#include "osc_bundle_iterator_s.h"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_u.h"
#include "osc_dispatch.h"
#include "osc_expr.h"
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_message_iterator_s.h"
#include "osc_message_iterator_u.h"
#include "osc_message_s.h"
#include "osc_message_u.h"
#include "osc_rset.h"
#include "osc_vtable.h"
#include "osc_expr_rec.h"
/* calls without an object: Z answer 0 or NULL, E answer something else (an error), W answer nothing */
#define NULLCALLS \
  W(osc_array_free(NULL)) \
  W(osc_array_clear(NULL)) \
  Z(osc_array_get(NULL, (long)V)) \
  Z(osc_array_getLen(NULL)) \
  Z(osc_array_copy(NULL)) \
  E(osc_array_copyInto(NULL, NULL, (long)V)) \
  E(osc_array_resize(NULL, (int)V)) \
  W(osc_array_set(NULL, NULL, (long)V, (size_t)V)) \
  W(osc_atom_array_u_free(NULL)) \
  Z(osc_atom_array_u_copy(NULL)) \
  E(osc_atom_array_u_copyInto(NULL, NULL, (long)V)) \
  W(osc_atom_array_u_set(NULL, NULL, (long)V)) \
  W(osc_atom_s_free(NULL)) \
  W(osc_atom_s_set(NULL, (char)V, NULL)) \
  Z(osc_atom_s_getTypetag(NULL)) \
  Z(osc_atom_s_getData(NULL)) \
  Z(osc_atom_s_getFloat(NULL)) \
  Z(osc_atom_s_getDouble(NULL)) \
  Z(osc_atom_s_getInt8(NULL)) \
  Z(osc_atom_s_getInt16(NULL)) \
  Z(osc_atom_s_getInt32(NULL)) \
  Z(osc_atom_s_getInt64(NULL)) \
  Z(osc_atom_s_getUInt8(NULL)) \
  Z(osc_atom_s_getUInt16(NULL)) \
  Z(osc_atom_s_getUInt32(NULL)) \
  Z(osc_atom_s_getUInt64(NULL)) \
  Z(osc_atom_s_getInt(NULL)) \
  Z(osc_atom_s_getStringLen(NULL)) \
  Z(osc_atom_s_getString(NULL, (size_t)V, NULL)) \
  Z(osc_atom_s_getBool(NULL)) \
  Z(osc_atom_s_getBndl(NULL)) \
  Z(osc_atom_s_getBndlCopy(NULL)) \
  E(osc_atom_s_getBlobLen(NULL)) \
  Z(osc_atom_s_getBlob(NULL)) \
  E(osc_atom_s_getBlobCopy(NULL, NULL, NULL)) \
  W(osc_atom_s_setFloat(NULL, (float)1.5)) \
  W(osc_atom_s_setDouble(NULL, (double)1.5)) \
  W(osc_atom_s_setInt8(NULL, (int8_t)V)) \
  W(osc_atom_s_setInt16(NULL, (int16_t)V)) \
  W(osc_atom_s_setInt32(NULL, (int32_t)V)) \
  W(osc_atom_s_setInt64(NULL, (int64_t)V)) \
  W(osc_atom_s_setUInt8(NULL, (uint8_t)V)) \
  W(osc_atom_s_setUInt16(NULL, (uint16_t)V)) \
  W(osc_atom_s_setUInt32(NULL, (uint32_t)V)) \
  W(osc_atom_s_setUInt64(NULL, (uint64_t)V)) \
  W(osc_atom_s_setString(NULL, NULL)) \
  W(osc_atom_s_setTrue(NULL)) \
  W(osc_atom_s_setFalse(NULL)) \
  W(osc_atom_s_setNil(NULL)) \
  W(osc_atom_s_setTimetag(NULL, g_tt(V))) \
  W(osc_atom_s_negate(NULL)) \
  Z(osc_atom_s_sizeof(NULL)) \
  W(osc_atom_s_deserializeInto(NULL, NULL)) \
  Z(osc_atom_s_deserialize(NULL)) \
  Z(osc_atom_s_getFormattedSize(NULL)) \
  Z(osc_atom_s_format(NULL)) \
  W(osc_atom_u_free(NULL)) \
  W(osc_atom_u_copyInto(NULL, NULL)) \
  Z(osc_atom_u_copy(NULL)) \
  W(osc_atom_u_setShouldFreePtr(NULL, (int)V)) \
  W(osc_atom_u_clear(NULL)) \
  W(osc_atom_u_append(NULL, NULL)) \
  Z(osc_atom_u_getTypetag(NULL)) \
  Z(osc_atom_u_getFloat(NULL)) \
  Z(osc_atom_u_getDouble(NULL)) \
  Z(osc_atom_u_getInt8(NULL)) \
  Z(osc_atom_u_getInt16(NULL)) \
  Z(osc_atom_u_getInt32(NULL)) \
  Z(osc_atom_u_getInt64(NULL)) \
  Z(osc_atom_u_getUInt8(NULL)) \
  Z(osc_atom_u_getUInt16(NULL)) \
  Z(osc_atom_u_getUInt32(NULL)) \
  Z(osc_atom_u_getUInt64(NULL)) \
  Z(osc_atom_u_getInt(NULL)) \
  Z(osc_atom_u_getStringPtr(NULL)) \
  Z(osc_atom_u_getStringLen(NULL)) \
  Z(osc_atom_u_getString(NULL, (size_t)V, NULL)) \
  Z(osc_atom_u_getBool(NULL)) \
  Z(osc_atom_u_getBndl(NULL)) \
  W(osc_atom_u_getTimetag(NULL)) \
  E(osc_atom_u_getBlobLen(NULL)) \
  Z(osc_atom_u_getBlob(NULL)) \
  W(osc_atom_u_getBlobCopy(NULL, NULL, NULL)) \
  W(osc_atom_u_setFloat(NULL, (float)1.5)) \
  W(osc_atom_u_setDouble(NULL, (double)1.5)) \
  W(osc_atom_u_setInt8(NULL, (int8_t)V)) \
  W(osc_atom_u_setInt16(NULL, (int16_t)V)) \
  W(osc_atom_u_setInt32(NULL, (int32_t)V)) \
  W(osc_atom_u_setInt64(NULL, (int64_t)V)) \
  W(osc_atom_u_setUInt8(NULL, (uint8_t)V)) \
  W(osc_atom_u_setUInt16(NULL, (uint16_t)V)) \
  W(osc_atom_u_setUInt32(NULL, (uint32_t)V)) \
  W(osc_atom_u_setUInt64(NULL, (uint64_t)V)) \
  W(osc_atom_u_setString(NULL, NULL)) \
  W(osc_atom_u_setStringPtr(NULL, NULL)) \
  W(osc_atom_u_setBool(NULL, (int)V)) \
  W(osc_atom_u_setTrue(NULL)) \
  W(osc_atom_u_setFalse(NULL)) \
  W(osc_atom_u_setNil(NULL)) \
  W(osc_atom_u_setBndl(NULL, (long)V, NULL)) \
  W(osc_atom_u_setBndl_s(NULL, (long)V, NULL)) \
  W(osc_atom_u_setBndl_u(NULL, NULL)) \
  W(osc_atom_u_setTimetag(NULL, g_tt(V))) \
  W(osc_atom_u_setBlob(NULL, NULL)) \
  W(osc_atom_u_setBlobPtr(NULL, NULL)) \
  W(osc_atom_u_setRec(NULL, NULL)) \
  Z(osc_atom_u_getRec(NULL)) \
  Z(osc_atom_u_sizeof(NULL)) \
  W(osc_atom_u_negate(NULL)) \
  Z(osc_atom_u_getSerializedSize(NULL)) \
  Z(osc_atom_u_getFormattedSize(NULL)) \
  Z(osc_atom_u_format(NULL)) \
  W(osc_bundle_iterator_s_destroyIterator(NULL)) \
  Z(osc_bundle_iterator_u_getIterator(NULL)) \
  W(osc_bundle_iterator_u_destroyIterator(NULL)) \
  W(osc_bundle_iterator_u_resetIterator(NULL)) \
  Z(osc_bundle_iterator_u_next(NULL)) \
  Z(osc_bundle_iterator_u_hasNext(NULL)) \
  E(osc_bundle_s_deepCopy(NULL, NULL)) \
  W(osc_bundle_s_free(NULL)) \
  W(osc_bundle_s_deepFree(NULL)) \
  Z(osc_bundle_s_getPtr(NULL)) \
  Z(osc_bundle_s_getLen(NULL)) \
  W(osc_bundle_s_setLen(NULL, (long)V)) \
  W(osc_bundle_s_setPtr(NULL, NULL)) \
  Z(osc_bundle_s_getFirstMsg(NULL)) \
  Z(osc_bundle_s_appendMessage(NULL, NULL, NULL)) \
  E(osc_bundle_s_setBundleID(NULL)) \
  E(osc_bundle_s_setBundleID_b(NULL)) \
  E(osc_bundle_s_flatten(NULL, NULL, (int)V, NULL, (int)V)) \
  E(osc_bundle_s_explode(NULL, NULL, (int)V, NULL)) \
  Z(osc_bundle_s_pformat(NULL)) \
  Z(osc_bundle_s_union(NULL, NULL)) \
  W(osc_bundle_array_s_free(NULL)) \
  W(osc_bundle_array_s_clear(NULL)) \
  Z(osc_bundle_array_s_get(NULL, (long)V)) \
  Z(osc_bundle_array_s_getLen(NULL)) \
  Z(osc_bundle_array_s_copy(NULL)) \
  E(osc_bundle_array_s_resize(NULL, (long)V)) \
  W(osc_bundle_u_free(NULL)) \
  W(osc_bundle_u_clear(NULL)) \
  Z(osc_bundle_u_getMsgCount(NULL)) \
  Z(osc_bundle_u_getFirstMsg(NULL)) \
  Z(osc_bundle_u_getFirstFullMatch(NULL, NULL)) \
  Z(osc_bundle_u_replaceMessage(NULL, NULL)) \
  Z(osc_bundle_u_addMsg(NULL, NULL)) \
  Z(osc_bundle_u_addMsgWithoutDups(NULL, NULL)) \
  Z(osc_bundle_u_addMsgCopy(NULL, NULL)) \
  Z(osc_bundle_u_addMsgWithoutDupsCopy(NULL, NULL)) \
  E(osc_bundle_u_addMsgArrayCopy(NULL, NULL)) \
  E(osc_bundle_u_addMsgList(NULL, NULL)) \
  Z(osc_bundle_u_removeMsg(NULL, NULL)) \
  W(osc_bundle_u_removeMessage(NULL, NULL)) \
  E(osc_bundle_u_explode(NULL, NULL, (int)V, NULL)) \
  E(osc_bundle_u_getSerializedSize(NULL)) \
  Z(osc_bundle_u_getFormattedSize(NULL)) \
  Z(osc_bundle_u_format(NULL)) \
  W(osc_bundle_array_u_free(NULL)) \
  W(osc_bundle_array_u_clear(NULL)) \
  Z(osc_bundle_array_u_get(NULL, (long)V)) \
  Z(osc_bundle_array_u_getLen(NULL)) \
  Z(osc_bundle_array_u_copy(NULL)) \
  E(osc_bundle_array_u_resize(NULL, (long)V)) \
  E(osc_dispatch(NULL, (int32_t)V, NULL, (int)V)) \
  E(osc_dispatch_selectors(NULL, (int)V, NULL, (int32_t)V, NULL, (int)V)) \
  W(osc_expr_destroyLexenv(NULL)) \
  Z(osc_expr_lookupBindingInLexenv(NULL, NULL)) \
  E(osc_expr_getFunctionsForCategory(NULL, NULL, NULL)) \
  E(osc_expr_formatFunctionDoc(NULL, NULL)) \
  W(osc_expr_free(NULL)) \
  W(osc_expr_copy(NULL, NULL)) \
  W(osc_expr_copyAllLinked(NULL, NULL)) \
  Z(osc_expr_arg_copy(NULL, NULL)) \
  W(osc_expr_arg_clear(NULL)) \
  W(osc_expr_arg_free(NULL)) \
  W(osc_expr_arg_freeList(NULL)) \
  W(osc_expr_appendExpr(NULL, NULL)) \
  W(osc_expr_setRec(NULL, NULL)) \
  Z(osc_expr_getRec(NULL)) \
  W(osc_expr_setNext(NULL, NULL)) \
  Z(osc_expr_next(NULL)) \
  W(osc_expr_setArg(NULL, NULL)) \
  W(osc_expr_prependArg(NULL, NULL)) \
  W(osc_expr_appendArg(NULL, NULL)) \
  Z(osc_expr_getArgs(NULL)) \
  Z(osc_expr_getArgCount(NULL)) \
  W(osc_expr_arg_setOSCAtom(NULL, NULL)) \
  W(osc_expr_arg_setFunction(NULL, NULL)) \
  W(osc_expr_arg_setExpr(NULL, NULL)) \
  W(osc_expr_arg_setOSCAddress(NULL, NULL)) \
  W(osc_expr_arg_setList(NULL, NULL)) \
  W(osc_expr_arg_setType(NULL, (long)V)) \
  E(osc_expr_arg_getType(NULL)) \
  Z(osc_expr_arg_getOSCAtom(NULL)) \
  Z(osc_expr_arg_getExpr(NULL)) \
  Z(osc_expr_arg_getOSCAddress(NULL)) \
  Z(osc_expr_arg_getFunction(NULL)) \
  W(osc_hashtab_store(NULL, (int)V, NULL, NULL)) \
  W(osc_hashtab_storeSafe(NULL, (int)V, NULL, NULL)) \
  Z(osc_hashtab_lookup(NULL, (int)V, NULL)) \
  W(osc_hashtab_remove(NULL, (int)V, NULL, NULL)) \
  W(osc_hashtab_clear(NULL)) \
  W(osc_hashtab_destroy(NULL)) \
  W(osc_linkedlist_clear(NULL)) \
  W(osc_linkedlist_destroy(NULL)) \
  W(osc_linkedlist_prepend(NULL, NULL)) \
  W(osc_linkedlist_append(NULL, NULL)) \
  Z(osc_linkedlist_peekHead(NULL)) \
  Z(osc_linkedlist_peekTail(NULL)) \
  Z(osc_linkedlist_peekNth(NULL, (int)V)) \
  Z(osc_linkedlist_popHead(NULL)) \
  Z(osc_linkedlist_popTail(NULL)) \
  Z(osc_linkedlist_popNth(NULL, (int)V)) \
  Z(osc_linkedlist_getCount(NULL)) \
  W(osc_message_iterator_s_destroyIterator(NULL)) \
  W(osc_message_iterator_u_destroyIterator(NULL)) \
  W(osc_message_s_free(NULL)) \
  W(osc_message_s_deepFree(NULL)) \
  W(osc_message_s_initMsg(NULL)) \
  Z(osc_message_s_renameCopy(NULL, NULL, (int32_t)V, NULL)) \
  Z(osc_message_s_getSize(NULL)) \
  Z(osc_message_s_getAddress(NULL)) \
  Z(osc_message_s_getTypetags(NULL)) \
  Z(osc_message_s_getData(NULL)) \
  Z(osc_message_s_getArgCount(NULL)) \
  Z(osc_message_s_getPtr(NULL)) \
  Z(osc_message_s_getTypetag(NULL, (int)V)) \
  W(osc_message_s_getArg(NULL, (int)V, NULL)) \
  Z(osc_message_s_getFormattedSize(NULL)) \
  Z(osc_message_s_format(NULL)) \
  W(osc_message_array_s_free(NULL)) \
  W(osc_message_array_s_clear(NULL)) \
  Z(osc_message_array_s_get(NULL, (long)V)) \
  Z(osc_message_array_s_getLen(NULL)) \
  Z(osc_message_array_s_copy(NULL)) \
  W(osc_message_array_s_resize(NULL, (long)V)) \
  W(osc_message_u_free(NULL)) \
  W(osc_message_u_initMsg(NULL)) \
  W(osc_message_u_clearArgs(NULL)) \
  W(osc_message_u_copy(NULL, NULL)) \
  E(osc_message_u_deepCopy(NULL, NULL)) \
  Z(osc_message_u_getSize(NULL)) \
  W(osc_message_u_append(NULL, NULL)) \
  Z(osc_message_u_next(NULL)) \
  Z(osc_message_u_getAddress(NULL)) \
  E(osc_message_u_setAddress(NULL, NULL)) \
  Z(osc_message_u_getArgCount(NULL)) \
  Z(osc_message_u_getArg(NULL, (int)V)) \
  W(osc_message_u_removeAtom(NULL, NULL)) \
  Z(osc_message_u_getSerializedSize(NULL)) \
  Z(osc_message_u_getFormattedSize(NULL)) \
  Z(osc_message_u_format(NULL)) \
  W(osc_message_array_u_free(NULL)) \
  W(osc_message_array_u_clear(NULL)) \
  Z(osc_message_array_u_get(NULL, (long)V)) \
  Z(osc_message_array_u_getLen(NULL)) \
  Z(osc_message_array_u_copy(NULL)) \
  E(osc_message_array_u_resize(NULL, (long)V)) \
  Z(osc_message_u_setArgArrayCopy(NULL, NULL)) \
  W(osc_rset_free(NULL)) \
  W(osc_rset_initIterator(NULL)) \
  Z(osc_rset_hasNext(NULL)) \
  Z(osc_rset_next(NULL)) \
  W(osc_rset_appendResult(NULL, NULL)) \
  Z(osc_rset_select(NULL, NULL)) \
  Z(osc_rset_addCompleteMatch(NULL, NULL, NULL)) \
  Z(osc_rset_addPartialMatch(NULL, NULL, NULL)) \
  Z(osc_rset_addUnmatched(NULL, NULL)) \
  Z(osc_rset_getUnmatched(NULL)) \
  Z(osc_rset_result_getSelector(NULL)) \
  Z(osc_rset_result_getSelectorLen(NULL)) \
  Z(osc_rset_result_getCompleteMatches(NULL)) \
  Z(osc_rset_result_getPartialMatches(NULL)) \
  E(osc_vtable_getIndexForEntry(NULL, NULL)) \
  W(osc_expr_rec_free(NULL, NULL)) \
  W(osc_expr_rec_setName(NULL, NULL)) \
  W(osc_expr_rec_setSignature(NULL, NULL)) \
  W(osc_expr_rec_setFunction(NULL, NULL)) \
  W(osc_expr_rec_setExtra(NULL, NULL)) \
  Z(osc_expr_rec_getName(NULL)) \
  Z(osc_expr_rec_getSignature(NULL)) \
  Z(osc_expr_rec_getNumRequiredArgs(NULL)) \
  Z(osc_expr_rec_getNumOptionalArgs(NULL)) \
  Z(osc_expr_rec_getRequiredArgsNames(NULL)) \
  Z(osc_expr_rec_getOptionalArgsNames(NULL)) \
  Z(osc_expr_rec_getRequiredArgsTypes(NULL)) \
  Z(osc_expr_rec_getOptionalArgsTypes(NULL)) \
  Z(osc_expr_rec_getCategories(NULL)) \
  Z(osc_expr_rec_getDocstring(NULL)) \
  Z(osc_expr_rec_getFunction(NULL)) \
  Z(osc_expr_rec_getExtra(NULL))
