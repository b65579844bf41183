// libsml objects <-> generic nodes. The build direction uses the public API only.
#pragma once
#include "node.h"
extern "C" {
#include <sml/sml_file.h>
#include <sml/sml_message.h>
#include <sml/sml_transport.h>
#include <sml/sml_value.h>
#include <sml/sml_crc16.h>
}
struct BuildError { std::string what; };
sml_message *build_msg(const Node &m);         // throws BuildError
sml_message *build_partial(const Node &m);     // parts may be missing; fit for freeing only
sml_message_body *build_body(const Node &tagAndBody);
sml_list *build_lentry(const Node &n);
octet_string *build_oct(const Node &n);
Node dump_msg(const sml_message *m);
Node dump_oct(const octet_string *o);
std::vector<Node> dump_file(const sml_file *f);
// Reads everything reachable, calls the inspection API on every value. Returns a digest.
void inspect_file(sml_file *f, Hash &h);
extern std::vector<Bytes> *g_made_ids; // if set, collects the transaction identifiers of new messages
