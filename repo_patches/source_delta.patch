From 3bd904999f66ad83763c0f6e0b215dd74117798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 01/81] fix: nodejs db_role() moves to ancestors and none, not
 descendants

---
 lang-nodejs.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..64e8daf 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1979,9 +1979,9 @@ gen_alias_builder(FILE *f, const struct strct *p)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role (which
+ * are to its ancestors and "none"), then all of the transitions from
+ * the roles "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -1993,9 +1993,11 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
-		return 0;
-	if (fputs("\t\t\t\tthis.#role = newrole;\n"
+	for (rr = r->parent; strcmp(rr->name, "all"); rr = rr->parent)
+		if (fprintf(f, "\t\t\tcase '%s':\n", rr->name) < 0)
+			return 0;
+	if (fputs("\t\t\tcase 'none':\n"
+	    "\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
 	    "\t\t\tdefault:\n"
 	    "\t\t\t\tbreak;\n"
@@ -2056,7 +2058,7 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	    "\t\t\tprocess.abort();\n\n", f) == EOF)
 		return 0;
 
-	/* All possible descents from current into encompassed role. */
+	/* All possible ascents from current into encompassing role. */
 
 	if (fputs("\t\tswitch (this.#role) {\n"
 	    "\t\tcase 'default':\n"
-- 
2.43.0


From 47f3f2ff4aa62e6a5e287412e3f73bed4be04c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 02/81] fix: nodejs operations without roles are denied when
 roles are enabled

---
 lang-nodejs.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 64e8daf..c60e740 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -168,24 +168,28 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 
 /*
  * Recursively generate all roles allowed by this rolemap.
+ * If roles are enabled but there's no rolemap, no role is allowed.
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 
-	if (rm == NULL)
+	if (rm == NULL && TAILQ_EMPTY(&cfg->rq))
 		return 0;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
-	TAILQ_FOREACH(rr, &rm->rq, entries)
-		if (!gen_role(f, rr->role, 2))
-			return 0;
+		return -1;
+	if (rm != NULL) {
+		TAILQ_FOREACH(rr, &rm->rq, entries)
+			if (!gen_role(f, rr->role, 2))
+				return -1;
+		if (fputs("\t\t\tbreak;\n", f) == EOF)
+			return -1;
+	}
 
-	return fputs("\t\t\tbreak;\n"
-	     "\t\tdefault:\n"
+	return fputs("\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
 	     "\t\t}\n", f) != EOF;
 }
@@ -386,7 +390,7 @@ gen_fill(FILE *f, const struct strct *p)
  * success.
  */
 static int
-gen_insert(FILE *f, const struct strct *p)
+gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 {
 	const struct field	*fd;
 	size_t	 	 	 pos = 1, col;
@@ -461,7 +465,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -730,7 +734,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1144,7 +1148,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1288,7 +1292,7 @@ gen_api(FILE *f, const struct config *cfg, const struct strct *p)
 	if (!gen_reffind(f, p))
 		return 0;
 
-	if (p->ins != NULL && !gen_insert(f, p))
+	if (p->ins != NULL && !gen_insert(f, cfg, p))
 		return 0;
 
 	pos = 0;
-- 
2.43.0


From fc57f390c0e5a390f2a0dabf3e99efbe863b646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 03/81] fix: nodejs switch syntax when "all" matches no role

---
 lang-nodejs.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index c60e740..2c8f1ab 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -166,6 +166,23 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 	return 1;
 }
 
+/*
+ * See whether the role map matches any roles at all: it doesn't if it's
+ * only for "all" and there are no roles defined.
+ * Return zero if it doesn't, non-zero if it does.
+ */
+static int
+has_roles(const struct rolemap *rm)
+{
+	const struct rref	*rr;
+
+	TAILQ_FOREACH(rr, &rm->rq, entries)
+		if (strcmp(rr->role->name, "all") ||
+		    !TAILQ_EMPTY(&rr->role->subrq))
+			return 1;
+	return 0;
+}
+
 /*
  * Recursively generate all roles allowed by this rolemap.
  * If roles are enabled but there's no rolemap, no role is allowed.
@@ -181,7 +198,7 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
 		return -1;
-	if (rm != NULL) {
+	if (rm != NULL && has_roles(rm)) {
 		TAILQ_FOREACH(rr, &rm->rq, entries)
 			if (!gen_role(f, rr->role, 2))
 				return -1;
@@ -1452,7 +1469,7 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 		}
 
 		tab = "";
-		if (fd->rolemap != NULL) {
+		if (fd->rolemap != NULL && has_roles(fd->rolemap)) {
 			tab = "\t";
 			if (fputs("\t\tswitch (role) {\n", f) == EOF)
 				return 0;
@@ -1546,7 +1563,7 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 			}
 		}
 
-		if (fd->rolemap != NULL &&
+		if (fd->rolemap != NULL && has_roles(fd->rolemap) &&
 		    fputs("\t\t\tbreak;\n\t\t}\n", f) == EOF)
 			return 0;
 	}
-- 
2.43.0


From 64a3d4d34ecb424f2baf3ea5a34a80f02f7265db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 04/81] fix: nodejs transaction modes are part of the BEGIN
 statement

---
 lang-nodejs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 2c8f1ab..f55311e 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2176,7 +2176,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_immediate(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION IMMEDIATE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN IMMEDIATE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2191,7 +2191,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_deferred(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION DEFERRED\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN DEFERRED TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2204,7 +2204,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_exclusive(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION EXCLUSIVE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN EXCLUSIVE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
-- 
2.43.0


From 5e81afe648df510ae145d31cf0b992831d6fa95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 05/81] fix: nodejs quoting of statements that concatenate to
 null fields

---
 lang.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..54f3768 100644
--- a/lang.c
+++ b/lang.c
@@ -980,11 +980,13 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				 * value, which isn't what we want.
 				 * This will wrap possibly-null values
 				 * so that they're always strings.
+				 * Escape the quotes for languages whose
+				 * statements are within single quotes.
 				 */
 
 				if ((ur->field->flags & FIELD_NULL)) {
 					if (fprintf(f, 
-					    "COALESCE(%s,'')",
+					    "COALESCE(%s,\\'\\')",
 					    ur->field->name) < 0)
 						return 0;
 				} else {
-- 
2.43.0


From af3a19853455a1b856f078e14fe0861211f5d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 06/81] fix: concatenating to a blob stores a blob, not text

---
 lang.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lang.c b/lang.c
index 54f3768..e4b2137 100644
--- a/lang.c
+++ b/lang.c
@@ -984,6 +984,9 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				 * statements are within single quotes.
 				 */
 
+				if (ur->field->type == FTYPE_BLOB &&
+				    fputs("CAST(", f) == EOF)
+					return 0;
 				if ((ur->field->flags & FIELD_NULL)) {
 					if (fprintf(f, 
 					    "COALESCE(%s,\\'\\')",
@@ -996,6 +999,12 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				}
 				if (fputs(" || ?", f) == EOF)
 					return 0;
+
+				/* Concatenation always yields text. */
+
+				if (ur->field->type == FTYPE_BLOB &&
+				    fputs(" AS BLOB)", f) == EOF)
+					return 0;
 				break;
 			default:
 				if (fprintf(f, "%s = ?", 
-- 
2.43.0


From 238fa3f5fed220886150c93e262e2db1fa3c740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 07/81] fix: nodejs ort() argument type

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index f55311e..32bd397 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2305,7 +2305,7 @@ ort_lang_nodejs(const struct ort_lang_nodejs *args,
 		    fputs("export ", f) == EOF)
 			return 0;
 		if (fputs
-		    ("function ort(dbname: string, args?: optargs): ortdb\n"
+		    ("function ort(dbname: string, args?: ortargs): ortdb\n"
 		     "{\n"
 		     "\treturn new ortdb(dbname, args);\n"
 		     "}\n", f) == EOF)
-- 
2.43.0


From 06270738d4d22d679c0520adddee3899f46b2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 08/81] fix: nodejs inserts and updates return failure on any
 constraint violation

---
 lang-nodejs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 32bd397..0aa8c87 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -551,8 +551,8 @@ gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 	     "\t\ttry {\n"
 	     "\t\t\tinfo = stmt.run(parms);\n"
 	     "\t\t} catch (er) {\n"
-	     "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
-	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
+	     "\t\t\tif (String(er.code).startsWith"
+	     "('SQLITE_CONSTRAINT'))\n"
 	     "\t\t\t\treturn BigInt(-1);\n"
 	     "\t\t\tthrow er;\n"
 	     "\t\t}\n"
@@ -846,8 +846,8 @@ gen_update(FILE *f, const struct config *cfg,
 		    "\t\ttry {\n"
 		    "\t\t\tinfo = stmt.run(parms);\n"
 		    "\t\t} catch (er) {\n"
-		    "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
-		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
+		    "\t\t\tif (String(er.code).startsWith"
+		    "('SQLITE_CONSTRAINT'))\n"
 		    "\t\t\t\treturn false;\n"
 		    "\t\t\tthrow er;\n"
 		    "\t\t}\n"
-- 
2.43.0


From fc28286c5c7e7408990da8c67658207645e94f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 09/81] fix: C db_role() may always drop to "none", as
 documented

---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..55d3ed5 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1143,6 +1143,10 @@ gen_func_role_transitions(FILE *f, const struct config *cfg)
 	    "\t\treturn;\n"
 	    "\tif (ctx->role == ROLE_none)\n"
 	    "\t\tabort();\n"
+	    "\tif (r == ROLE_none) {\n"
+	    "\t\tctx->role = r;\n"
+	    "\t\treturn;\n"
+	    "\t}\n"
 	    "\n"
 	    "\tswitch (ctx->role) {\n"
 	    "\tcase ROLE_default:\n"
-- 
2.43.0


From 09092a04478f2fe161f6ded9590a51e13c69a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 10/81] fix: C export of fields withheld from a role and its
 descendant

---
 lang-c-source.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 55d3ed5..d80bbf8 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -234,6 +234,24 @@ gen_newpass(FILE *f, int ptr, size_t pos, size_t npos)
 	    ptr ? "*" : "", npos, pos, pos) >= 0;
 }
 
+/*
+ * See whether an ancestor of role "r" is in the same role map "rm", in
+ * which case the role is already covered by it.
+ * Return zero if it isn't, non-zero if it is.
+ */
+static int
+role_covered(const struct rolemap *rm, const struct role *r)
+{
+	const struct rref	*rs;
+	const struct role	*rp;
+
+	for (rp = r->parent; rp != NULL; rp = rp->parent)
+		TAILQ_FOREACH(rs, &rm->rq, entries)
+			if (rs->role == rp)
+				return 1;
+	return 0;
+}
+
 /*
  * When accepting only given roles, print the roles rooted at "r".
  * Return zero on failure, non-zero on success.
@@ -2151,7 +2169,8 @@ gen_json_out_field(FILE *f,
 		    "(p->priv_store)) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(rs, &fd->rolemap->rq, entries)
-			if (!gen_role(f, rs->role))
+			if (!role_covered(fd->rolemap, rs->role) &&
+			    !gen_role(f, rs->role))
 				return 0;
 		if (!gen_comment(f, 2, COMMENT_C,
 		    "Don't export field to noted roles."))
-- 
2.43.0


From a0962791ed4c8701d2312e15ced8165bbcb90d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 11/81] fix: C iterators bind parameters after hashed passwords
 correctly

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index d80bbf8..aa5f3d2 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -545,8 +545,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From 5e4964a301e243c67876cfa06e8d19cca0b025b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 12/81] fix: C searches by more than one password do not use a
 freed object

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index aa5f3d2..c52979a 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1413,11 +1413,11 @@ gen_search(FILE *f, const struct config *cfg,
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		if (fprintf(f, "\t\tif (p != NULL && ") < 0)
 			return 0;
 		if (!gen_checkpass(f, 1, pos, sent))
 			return 0;
-		if (fprintf(f, " {\n"
+		if (fprintf(f, ") {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
 		    "\t\t}\n",
-- 
2.43.0


From 306842d93853fb9b9e31a521586a036d409f291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 13/81] fix: C null-reference lookups bind the key by its type

---
 lang-c-source.c | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index c52979a..07276d9 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1732,11 +1732,36 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 	TAILQ_FOREACH(fd, &p->fq, entries) {
 		if (fd->type != FTYPE_STRUCT)
 			continue;
-		if ((fd->ref->source->flags & FIELD_NULL))
+		if ((fd->ref->source->flags & FIELD_NULL)) {
 			if (fprintf(f, "\tif (p->has_%s) {\n"
-			    "\t\tparm.type = SQLBOX_PARM_INT;\n"
-			    "\t\tparm.iparm = ORT_GET_%s_%s(p);\n"
-			    "\t\tif (!sqlbox_prepare_bind_async\n"
+			    "\t\tparm.type = %s;\n",
+			    fd->ref->source->name,
+			    bindtypes[fd->ref->source->type]) < 0)
+				return 0;
+			switch (fd->ref->source->type) {
+			case FTYPE_BIT:
+			case FTYPE_BITFIELD:
+			case FTYPE_DATE:
+			case FTYPE_EPOCH:
+			case FTYPE_INT:
+				if (fprintf(f, "\t\tparm.iparm = "
+				    "ORT_GET_%s_%s(p);\n",
+				    fd->ref->source->parent->name,
+				    fd->ref->source->name) < 0)
+					return 0;
+				break;
+			default:
+				if (fprintf(f, "\t\tparm.%s = p->%s;\n",
+				    bindvars[fd->ref->source->type],
+				    fd->ref->source->name) < 0)
+					return 0;
+				break;
+			}
+			if (fd->ref->source->type == FTYPE_BLOB &&
+			    fprintf(f, "\t\tparm.sz = p->%s_sz;\n",
+			    fd->ref->source->name) < 0)
+				return 0;
+			if (fprintf(f, "\t\tif (!sqlbox_prepare_bind_async\n"
 			    "\t\t    (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0))\n"
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tif ((res = sqlbox_step(db, 0)) == NULL)\n"
@@ -1746,14 +1771,12 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tp->has_%s = 1;\n"
 			    "\t}\n",
-			    fd->ref->source->name,
-			    fd->ref->source->parent->name,
-			    fd->ref->source->name,
 			    fd->ref->target->parent->name,
 			    fd->ref->target->name,
 			    fd->ref->target->parent->name,
 			    fd->name, fd->name) < 0)
 				return 0;
+		}
 		if (!(fd->ref->target->parent->flags &
 		    STRCT_HAS_NULLREFS))
 			continue;
-- 
2.43.0


From 9cec971987b4c45d7866c6a383a63d5e9cc84434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 14/81] fix: a noexport for one field does not leak into other
 fields

---
 linker_resolve.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..126b3d5 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -546,13 +546,24 @@ resolve_struct_rolemap_field(struct config *cfg,
 	struct struct_rolemap *r, struct field *f)
 {
 	struct rref	*rdst, *rsrc;
+	struct rolemap	*src = r->result;
 
 	if (f->rolemap == NULL) {
 		f->rolemap = r->result;
 		return 1;
 	}
 
-	TAILQ_FOREACH(rsrc, &r->result->rq, entries) {
+	/*
+	 * The all-fields rolemap is shared between fields, so the one
+	 * naming this field is the one that's extended.
+	 */
+
+	if (r->name != NULL && f->rolemap->f == NULL) {
+		src = f->rolemap;
+		f->rolemap = r->result;
+	}
+
+	TAILQ_FOREACH(rsrc, &src->rq, entries) {
 		TAILQ_FOREACH(rdst, &f->rolemap->rq, entries)
 			if (rdst->role == rsrc->role)
 				break;
@@ -560,7 +571,7 @@ resolve_struct_rolemap_field(struct config *cfg,
 		/* Already specified! */
 
 		if (rdst != NULL)
-			return 1;
+			continue;
 
 		/* Source doesn't exist in destination. */
 
-- 
2.43.0


From e55fbd49ab558a3577b55ef59089c13af889b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 15/81] fix: C default role may look up null references of its
 queries

---
 lang-c-source.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 07276d9..dd7b871 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -826,6 +826,7 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 	const struct search 	*s;
 	const struct update 	*u;
 	const struct field 	*fd;
+	const struct role	*r;
 	size_t	 		 pos, shown = 0;
 	char			*buf;
 
@@ -841,6 +842,13 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 				return -1;
 			if (!gen_role_stmt_all(f, cfg, buf))
 				return -1;
+
+			/* The default role may also be granted queries. */
+
+			TAILQ_FOREACH(r, &cfg->rq, entries)
+				if (strcmp(r->name, "default") == 0 &&
+				    !gen_role_stmt(f, r, buf))
+					return -1;
 			shown++;
 			free(buf);
 		}
-- 
2.43.0


From 03215996d18506d6be9037dd5f3456a216c3e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 16/81] fix: third letter of aliases past 676 is a letter

---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From 651c98f5b6a3c28693882f05aa30755da75cffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 17/81] fix: reject NOTHING and RETURNING, which SQLite does
 not take as names

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 11cd1d5..14967dd 100644
--- a/parser.c
+++ b/parser.c
@@ -143,6 +143,7 @@ static	const char *const badidents[] = {
 	"MATCH",
 	"NATURAL",
 	"NOT",
+	"NOTHING",
 	"NOTNULL",
 	"NULL",
 	"OF",
@@ -164,6 +165,7 @@ static	const char *const badidents[] = {
 	"RENAME",
 	"REPLACE",
 	"RESTRICT",
+	"RETURNING",
 	"RIGHT",
 	"ROLLBACK",
 	"ROW",
-- 
2.43.0


From d0ce84d3d9762aa39272ee6820830f30a8d5b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 18/81] fix: reject limits on bitfields as documented instead
 of aborting later

---
 parser_field.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_field.c b/parser_field.c
index 003c690..b6b1acc 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -95,6 +95,9 @@ parse_validate(struct parse *p, struct field *fd)
 		 */
 		parse_errx(p, "no validation on enums");
 		return;
+	} else if (fd->type == FTYPE_BITFIELD) {
+		parse_errx(p, "no validation on bitfields");
+		return;
 	}
 
 	if (parse_next(p) != TOK_IDENT) {
@@ -122,7 +125,6 @@ parse_validate(struct parse *p, struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BIT:
-	case FTYPE_BITFIELD:
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-- 
2.43.0


From 7897e529b619eb7d5bca092da2eefe6d639c3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 19/81] fix: real-valued limits and defaults are printed
 without loss or exponent

---
 extern.h        |  7 +++++++
 lang-c-source.c |  9 ++++++---
 lang-json.c     |  8 +++++---
 lang-nodejs.c   |  9 +++++----
 lang-sql.c      |  3 ++-
 writer.c        | 35 +++++++++++++++++++++++++++++++----
 6 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/extern.h b/extern.h
index 149dcec..6016630 100644
--- a/extern.h
+++ b/extern.h
@@ -125,4 +125,11 @@ struct	config_private {
 	struct resolveq		 rq; /* resolution requests */
 };
 
+/*
+ * Print a real value in the notation of ort(5) (which is also valid in
+ * C, SQL, JavaScript, and JSON) such that it reads back as the same.
+ * Returns <0 on failure, like fprintf(3).
+ */
+int	 ort_print_real(FILE *, double);
+
 #endif /* !EXTERN_H */
diff --git a/lang-c-source.c b/lang-c-source.c
index dd7b871..0938e62 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -30,6 +30,7 @@
 
 #include "ort-paths.h"
 #include "ort.h"
+#include "extern.h"
 #include "ort-lang-c.h"
 #include "ort-version.h"
 #include "lang.h"
@@ -2080,9 +2081,11 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
-		    "\t\treturn 0;\n",
-		    validbins[v->type], v->d.value.decimal) < 0)
+		    "\tif (p->parsed.d %s ", validbins[v->type]) < 0)
+			return 0;
+		if (ort_print_real(f, v->d.value.decimal) < 0)
+			return 0;
+		if (fputs(")\n\t\treturn 0;\n", f) == EOF)
 			return 0;
 		break;
 	default:
diff --git a/lang-json.c b/lang-json.c
index d45bf02..253a3c5 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -29,6 +29,7 @@
 #include <unistd.h>
 
 #include "ort.h"
+#include "extern.h"
 #include "ort-lang-json.h"
 
 static const char *const ordtypes[] = {
@@ -589,7 +590,9 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (fputc('"', f) == EOF ||
+			    ort_print_real(f, fd->def.decimal) < 0 ||
+			    fputc('"', f) == EOF)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -631,8 +634,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
-			    fv->d.value.decimal) < 0)
+			if (ort_print_real(f, fv->d.value.decimal) < 0)
 				return 0;
 			break;
 		case FTYPE_BLOB:
diff --git a/lang-nodejs.c b/lang-nodejs.c
index 0aa8c87..02d58e3 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -29,6 +29,7 @@
 #include <string.h>
 
 #include "ort.h"
+#include "extern.h"
 #include "ort-lang-nodejs.h"
 #include "ort-version.h"
 #include "lang.h"
@@ -1666,10 +1667,10 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
-			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
-			    "\t\t\t\treturn null;\n", 
-			    vtypes[fv->type], fv->d.value.decimal) < 0)
+			if (fprintf(f, "\t\t\tif (!(nv %s ",
+			    vtypes[fv->type]) < 0 ||
+			    ort_print_real(f, fv->d.value.decimal) < 0 ||
+			    fputs("))\n\t\t\t\treturn null;\n", f) == EOF)
 				return 0;
 		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..3416068 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -29,6 +29,7 @@
 #include <unistd.h>
 
 #include "ort.h"
+#include "extern.h"
 #include "lang.h"
 #include "ort-lang-sql.h"
 
@@ -305,7 +306,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			rc = ort_print_real(f, fd->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
diff --git a/writer.c b/writer.c
index 7c3b094..ec1d217 100644
--- a/writer.c
+++ b/writer.c
@@ -29,6 +29,7 @@
 #include <string.h>
 
 #include "ort.h"
+#include "extern.h"
 
 static	const char *const stypes[STYPE__MAX] = {
 	"count", /* STYPE_COUNT */
@@ -158,6 +159,31 @@ wprint(struct writer *w, const char *fmt, ...)
 	return len >= 0;
 }
 
+int
+ort_print_real(FILE *f, double v)
+{
+	char	 buf[512];
+	int	 prec;
+
+	/* Prefer the shortest form that has no exponent. */
+
+	for (prec = 6; prec <= 17; prec++) {
+		snprintf(buf, sizeof(buf), "%.*g", prec, v);
+		if (strchr(buf, 'e') == NULL && strtod(buf, NULL) == v)
+			return fprintf(f, "%s", buf);
+	}
+
+	/* Otherwise, add digits until it's exact. */
+
+	for (prec = 1; prec < 400; prec++) {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+
+	return fprintf(f, "%s", buf);
+}
+
 /*
  * Write a field/enumeration/whatever comment.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -253,8 +279,8 @@ parse_write_field(struct writer *w, const struct field *p)
 				p->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wputs(w, " default ") &&
+				ort_print_real(w->f, p->def.decimal) >= 0;
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -289,8 +315,9 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s ", vtypes[fv->type]))
+				return 0;
+			if (ort_print_real(w->f, fv->d.value.decimal) < 0)
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 6b0ead35c1c8a81bd0174b9d50f69b6ee0891e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 20/81] fix: default dates are printed as dates

---
 writer.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/writer.c b/writer.c
index ec1d217..2a9535d 100644
--- a/writer.c
+++ b/writer.c
@@ -27,6 +27,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 #include "extern.h"
@@ -218,6 +219,8 @@ static int
 parse_write_field(struct writer *w, const struct field *p)
 {
 	const struct fvalid *fv;
+	const struct tm	*tm;
+	time_t		 t;
 	unsigned int	 fl;
 	int		 rc;
 
@@ -270,9 +273,17 @@ parse_write_field(struct writer *w, const struct field *p)
 	}
 	if (fl & FIELD_HASDEF) {
 		switch (p->type) {
+		case FTYPE_DATE:
+			/* Parsed with mktime(3) from yyyy-mm-dd. */
+			t = (time_t)p->def.integer;
+			if ((tm = localtime(&t)) == NULL)
+				return 0;
+			rc = wprint(w, " default %d-%02d-%02d",
+				tm->tm_year + 1900, tm->tm_mon + 1,
+				tm->tm_mday);
+			break;
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
-- 
2.43.0


From a9feebbbf0b9aa697462f2eaf53a000465463034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 21/81] fix: quotes within text defaults are doubled in SQL

---
 lang-sql.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index 3416068..8ae7dc9 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -271,7 +271,8 @@ ort_lang_sql(const struct ort_lang_sql *args,
 static int
 gen_diff_field_new(FILE *f, const struct field *fd)
 {
-	int	 rc;
+	const char	*cp;
+	int		 rc;
 
 	if (fprintf(f, "ALTER TABLE %s ADD COLUMN %s %s",
 	    fd->parent->name, fd->name, ftypes[fd->type]) < 0)
@@ -310,7 +311,15 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
+			/* Quotes are doubled within SQL literals. */
+			if ((rc = fputc('\'', f)) == EOF)
+				return 0;
+			for (cp = fd->def.string; *cp != '\0'; cp++)
+				if ((*cp == '\'' && 
+				     fputc('\'', f) == EOF) ||
+				    fputc(*cp, f) == EOF)
+					return 0;
+			rc = fputc('\'', f);
 			break;
 		case FTYPE_ENUM:
 			rc = fprintf(f, "%" PRId64, 
-- 
2.43.0


From e41134b8e54940ec1de6a5ef32fd23b1883ccb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 22/81] fix: adding a rowid field is an error of ort-sqldiff,
 as SQLite cannot

---
 lang-sql.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lang-sql.c b/lang-sql.c
index 8ae7dc9..f8e1c25 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -348,6 +348,14 @@ gen_check_fields(struct msgq *mq, const struct diffq *q, int destruct)
 
 	TAILQ_FOREACH(d, q, entries) {
 		switch (d->type) {
+		case DIFF_ADD_FIELD:
+			/* SQLite can't add a primary key column. */
+			if (!(d->field->flags & FIELD_ROWID))
+				break;
+			gen_warnx(mq, &d->field->pos, 
+				"field with rowid was added");
+			errors++;
+			break;
 		case DIFF_DEL_FIELD:
 			if (destruct || d->field->type == FTYPE_STRUCT)
 				break;
-- 
2.43.0


From 9ab94010c2ea079fdefb7d9c5cf2619ced573a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:35 +0000
Subject: [PATCH 23/81] fix: tables are dropped before those they refer to

---
 lang-sql.c | 62 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index f8e1c25..ab1b22f 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -540,6 +540,25 @@ gen_diff_unique_del(FILE *f, const struct unique *u)
 	return fputs(";\n", f) != EOF;
 }
 
+/*
+ * Whether any of the "ps" (other than itself) has a reference to "p".
+ */
+static int
+is_referenced(const struct strct *p, const struct strct **ps, size_t sz)
+{
+	const struct field	*fd;
+	size_t			 i;
+
+	for (i = 0; i < sz; i++)
+		if (ps[i] != p)
+			TAILQ_FOREACH(fd, &ps[i]->fq, entries)
+				if (fd->ref != NULL &&
+				    fd->type != FTYPE_STRUCT &&
+				    fd->ref->target->parent == p)
+					return 1;
+	return 0;
+}
+
 /*
  * Generate an SQL diff.
  * This returns zero on failure, non-zero on success.
@@ -554,6 +573,8 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 {
 	const struct diff	*d;
 	size_t	 		 errors = 0;
+	const struct strct	**drops = NULL;
+	size_t			 i, dropsz = 0;
 	int	 		 rc = 0, prol = 0;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
@@ -666,17 +687,44 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 				goto out;
 		}
 
+	/*
+	 * Dropping a table deletes its rows, so drop referring tables
+	 * before those they refer to.
+	 */
+
 	TAILQ_FOREACH(d, q, entries) 
-		if (d->type == DIFF_DEL_STRCT && destruct) {
-			if (!gen_prologue(f, &prol))
-				goto out;
-			if (fprintf(f,
-			    "DROP TABLE %s;\n", d->strct->name) < 0)
-				goto out;
-		}
+		if (d->type == DIFF_DEL_STRCT && destruct)
+			dropsz++;
+
+	if (dropsz > 0) {
+		if (!gen_prologue(f, &prol))
+			goto out;
+		if ((drops = calloc
+		     (dropsz, sizeof(struct strct *))) == NULL)
+			goto out;
+		dropsz = 0;
+		TAILQ_FOREACH(d, q, entries) 
+			if (d->type == DIFF_DEL_STRCT)
+				drops[dropsz++] = d->strct;
+	}
+
+	while (dropsz > 0) {
+		for (i = 0; i < dropsz; i++)
+			if (!is_referenced(drops[i], drops, dropsz))
+				break;
+		if (i == dropsz)
+			i = 0;
+		if (fprintf(f, 
+		    "DROP TABLE %s;\n", drops[i]->name) < 0)
+			goto out;
+		dropsz--;
+		memmove(&drops[i], &drops[i + 1],
+			(dropsz - i) * sizeof(struct strct *));
+	}
 
 	rc = 1;
 out:
+	free(drops);
 	if (mq == &tmpq)
 		ort_msgq_free(mq);
 	return rc;
-- 
2.43.0


From dadf7d38436d0889d4100f0642e1af48937b38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 24/81] fix: labels are compared by language name, not by index
 within a configuration

---
 diff.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..b06688a 100644
--- a/diff.c
+++ b/diff.c
@@ -85,7 +85,8 @@ ort_check_rolemap_roles(const struct rolemap *from,
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from,
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +104,9 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			/* Language indices are per configuration. */
+			if (strcmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,7 +223,8 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
-	const struct bitidx *ifrom, const struct bitidx *iinto)
+	const struct config *cfrom, const struct bitidx *ifrom,
+	const struct config *cinto, const struct bitidx *iinto)
 {
 	struct diff	*d;
 	enum difftype	 type = DIFF_SAME_BITIDX;
@@ -244,7 +248,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels(cfrom, &ifrom->labels,
+	    cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,7 +441,8 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
-	const struct eitem *ifrom, const struct eitem *iinto)
+	const struct config *cfrom, const struct eitem *ifrom,
+	const struct config *cinto, const struct eitem *iinto)
 {
 	struct diff	*d;
 	enum difftype	 type = DIFF_SAME_EITEM;
@@ -468,7 +474,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels(cfrom, &ifrom->labels,
+	    cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,7 +495,8 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
-	const struct bitf *efrom, const struct bitf *einto)
+	const struct config *cfrom, const struct bitf *efrom,
+	const struct config *cinto, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
 	struct diff		*d;
@@ -504,7 +512,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx
+		    (q, cfrom, ifrom, cinto, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -534,9 +543,9 @@ ort_diff_bitf(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
+	     (cfrom, &efrom->labels_unset, cinto, &einto->labels_unset) ||
 	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	     (cfrom, &efrom->labels_null, cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,7 +1290,8 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
-	const struct enm *efrom, const struct enm *einto)
+	const struct config *cfrom, const struct enm *efrom,
+	const struct config *cinto, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
 	struct diff		*d;
@@ -1297,7 +1307,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem
+		    (q, cfrom, ifrom, cinto, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1326,7 +1337,7 @@ ort_diff_enm(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	    (cfrom, &efrom->labels_null, cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1373,7 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf(q, from, efrom, into, einto))
 			return 0;
 	}
 
@@ -1612,7 +1623,7 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm(q, from, efrom, into, einto))
 			return 0;
 	}
 
-- 
2.43.0


From 6614b7fac97fbc2f66b491713cb822f6e8060db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 25/81] fix: ort-diff prints removed roles

---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..4eb4d8d 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From 0e94595e4e17b9ca8dbd15b513c7f765bef70077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 26/81] fix: dropping tables does not delete rows of tables
 that stay

---
 lang-sql.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index ab1b22f..1e8993b 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -689,7 +689,9 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 
 	/*
 	 * Dropping a table deletes its rows, so drop referring tables
-	 * before those they refer to.
+	 * before those they refer to.  Columns are never really dropped
+	 * and may still refer to these tables: don't let this prevent
+	 * the drop or change any rows of the tables we keep.
 	 */
 
 	TAILQ_FOREACH(d, q, entries) 
@@ -706,6 +708,8 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 		TAILQ_FOREACH(d, q, entries) 
 			if (d->type == DIFF_DEL_STRCT)
 				drops[dropsz++] = d->strct;
+		if (fputs("PRAGMA foreign_keys=OFF;\n", f) == EOF)
+			goto out;
 	}
 
 	while (dropsz > 0) {
@@ -720,6 +724,9 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 		dropsz--;
 		memmove(&drops[i], &drops[i + 1],
 			(dropsz - i) * sizeof(struct strct *));
+		if (dropsz == 0 &&
+		    fputs("PRAGMA foreign_keys=ON;\n", f) == EOF)
+			goto out;
 	}
 
 	rc = 1;
-- 
2.43.0


From fe70742e6766a916762324ab841013cc0dd3670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 27/81] fix: ort-diff and ort-sqldiff: accept the documented -f
 after old configurations

---
 maindiff.c | 15 ++++++++++++---
 sqldiff.c  | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index bfec866..79d741a 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -37,7 +37,7 @@ main(int argc, char *argv[])
 {
 	FILE		**confs = NULL, **dconfs = NULL;
 	struct config	 *cfg = NULL, *dcfg = NULL;
-	int		  rc = 2;
+	int		  rc = 2, c;
 	size_t		  confsz = 0, dconfsz = 0, i, j, 
 			  confst = 0;
 	struct diffq	 *q = NULL;
@@ -48,8 +48,17 @@ main(int argc, char *argv[])
 		err(2, "pledge");
 #endif
 
-	if (getopt(argc, argv, "d") != -1)
-		goto usage;
+	/*
+	 * Stop at the first file or at "-f", which splits the files: some
+	 * getopt(3) would otherwise look for options behind the files.
+	 */
+
+	while ((c = getopt(argc, argv, "+f")) != -1) {
+		if (c != 'f' || strcmp(argv[optind - 1], "-f") != 0)
+			goto usage;
+		optind--;
+		break;
+	}
 
 	argc -= optind;
 	argv += optind;
diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..423fc80 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -50,14 +50,20 @@ main(int argc, char *argv[])
 		err(EXIT_FAILURE, "pledge");
 #endif
 
-	while ((c = getopt(argc, argv, "d")) != -1)
-		switch (c) {
-		case 'd':
+	/*
+	 * Stop at the first file or at "-f", which splits the files: some
+	 * getopt(3) would otherwise look for options behind the files.
+	 */
+
+	while ((c = getopt(argc, argv, "+df")) != -1) {
+		if (c == 'd') {
 			destruct = 1;
-			break;
-		default:
+			continue;
+		} else if (c != 'f' || strcmp(argv[optind - 1], "-f") != 0)
 			goto usage;
-		}
+		optind--;
+		break;
+	}
 
 	argc -= optind;
 	argv += optind;
-- 
2.43.0


From 264e47f8faca62a592b754d10bdc09bfb3754491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 28/81] fix: ort-diff reports a change of update parameters
 only once

---
 diff.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff.c b/diff.c
index b06688a..3f35bc8 100644
--- a/diff.c
+++ b/diff.c
@@ -656,7 +656,10 @@ ort_diff_update(struct diffq *q,
 	else if (c == 0)
 		rc = 0;
 
-	c = ort_diff_urefq(q, from, into, &from->crq, &into->crq);
+	/* (Only emit one difference for both.) */
+
+	c = ort_diff_urefq(rc == 0 ? NULL : q, 
+		from, into, &from->crq, &into->crq);
 	if (c < 0)
 		return -1;
 	else if (c == 0)
-- 
2.43.0


From 87adde192282d15c1cf53e6fcb91d5a7e46b0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 29/81] fix: ort-json gives lines as lines and columns as
 columns

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 253a3c5..f57a2ae 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -247,7 +247,7 @@ gen_pos(FILE *f, const struct pos *pos)
 	if (!gen_string(f, pos->fname))
 		return 0;
 	return fprintf(f, ", \"line\": %zu, \"column\": %zu },", 
-		pos->column, pos->line) > 0;
+		pos->line, pos->column) > 0;
 }
 
 /*
-- 
2.43.0


From 474e4af5db770ff8e55c8a2d4ecaa0471fc2e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 30/81] fix: ort-json writes backslashes and control characters
 as JSON has them

---
 lang-json.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index f57a2ae..73a8641 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -146,9 +146,12 @@ gen_string(FILE *f, const char *cp)
 		case '\t':
 			rc = fputs("\\t", f) != EOF;
 			break;
+		case '\\':
+			rc = fputs(cp[1] == '\"' ? "\\" : "\\\\", f) != EOF;
+			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", *cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From b3ec389dde4023a44748e0adae38592402782ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 31/81] fix: ort-json.ts writes default dates as dates

---
 ort-json.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ort-json.ts b/ort-json.ts
index d7dac10..a2339cc 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -543,7 +543,14 @@ namespace ortJson {
 				str += ' default "' + 
 					field.def.replace(/"/g, '\\"') +
 					'"';
-			else if (field.def !== null)
+			else if (field.def !== null && field.type === 'date') {
+				const date: Date = new Date
+					(Number(field.def) * 1000);
+				str += ' default ' + 
+					date.getUTCFullYear() + '-' +
+					(date.getUTCMonth() + 1) + '-' +
+					date.getUTCDate();
+			} else if (field.def !== null)
 				str += ' default ' + field.def;
 
 			for (let i: number = 0; i < field.fvq.length; i++)
-- 
2.43.0


From 5b7e93974dbb5cfcaa24853fbb4fc18f5d0bb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 32/81] fix: C types exist of references that are referred to

---
 lang-c-header.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index a5af397..96195f6 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -227,15 +227,13 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 				return 0;
 
 			/*
-			 * If we're a reference (fd->ref != NULL), then
-			 * don't print the type's setters and getters,
-			 * as they're defined on the referenced type and
-			 * not the reference.
+			 * A reference (fd->ref != NULL) has the type of
+			 * what it refers to.  Its own type is that of
+			 * fields referring to it.
 			 */
 
 			rfd = fd->ref != NULL ? fd->ref->target : fd;
-			if (fd->ref == NULL &&
-			    fprintf(f,
+			if (fprintf(f,
 			    "#define ORT_%s_%s(_src) "
 			     "(%s_%s){ .val = (_src) }\n",
 			    s->name, fd->name,
@@ -281,10 +279,7 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 			if (fputc('\n', f) == EOF)
 				return 0;
 
-			/* Like above, don't expand references. */
-
-			if (fd->ref == NULL &&
-			    fprintf(f,
+			if (fprintf(f,
 			    "#define ORT_%s_%s(_src) (_src)\n",
 			    s->name, fd->name) < 0)
 				return 0;
@@ -342,8 +337,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
-				    fprintf(f,
+				if (fprintf(f,
 				    "typedef struct %s_%s "
 				     "{ %s val; } %s_%s;\n",
 				    s->name, fd->name, type,
@@ -366,8 +360,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
-				    fprintf(f,
+				if (fprintf(f,
 				    "typedef %s %s_%s;\n",
 				    type, s->name, fd->name) < 0)
 					return 0;
-- 
2.43.0


From 262a243a0963aff5054b81e29564ea4991adb08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 33/81] fix: documents that end within a statement are refused

---
 parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 14967dd..065383c 100644
--- a/parser.c
+++ b/parser.c
@@ -462,7 +462,7 @@ again:
 
 	if ('-' == c) {
 		c = parse_nextchar(p);
-		if (parse_check_error_eof(p))
+		if (parse_check_error(p))
 			return(parse_read_err(p));
 		if ( ! isdigit(c))
 			return(parse_errx(p, "expected digit"));
@@ -749,6 +749,11 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* All of the above end with a semicolon. */
+
+		if (p->lasttype == TOK_EOF)
+			parse_errx(p, "unexpected end of file");
 	}
 
 	return 1;
-- 
2.43.0


From 0e8d5df4c89261d7c12dd737b4642dd7606d2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 34/81] fix: names of updates and deletes are unique

---
 parser_struct.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..4279c2f 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -915,7 +915,8 @@ parse_struct_unique(struct parse *p, struct strct *s)
 static void
 parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 {
-	struct update	*up;
+	struct update	*up, *uup;
+	struct updateq	*uq;
 	struct uref	*ur;
 	char		*cp;
 
@@ -929,10 +930,8 @@ parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 	TAILQ_INIT(&up->mrq);
 	TAILQ_INIT(&up->crq);
 
-	if (up->type == UP_MODIFY)
-		TAILQ_INSERT_TAIL(&s->uq, up, entries);
-	else
-		TAILQ_INSERT_TAIL(&s->dq, up, entries);
+	uq = up->type == UP_MODIFY ? &s->uq : &s->dq;
+	TAILQ_INSERT_TAIL(uq, up, entries);
 
 	/* 
 	 * For "update" statements, start with the fields that will be
@@ -1075,6 +1074,15 @@ terms:
 				parse_errx(p, "expected term name");
 				return;
 			}
+			TAILQ_FOREACH(uup, uq, entries) {
+				if (uup == up || uup->name == NULL ||
+				    strcasecmp(uup->name, p->last.string))
+					continue;
+				parse_errx(p, "duplicate %s name",
+					type == UP_MODIFY ? 
+					"update" : "delete");
+				return;
+			}
 			free(up->name);
 			up->name = strdup(p->last.string);
 			if (NULL == up->name) {
-- 
2.43.0


From f73e80ae517f2105b09df40a0bd4bcdb651a2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 35/81] fix: all pairs of unique statements are compared

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index fd7534b..958faaa 100644
--- a/linker.c
+++ b/linker.c
@@ -393,7 +393,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From 8bc6aaffccf5abed641356766b2a5d42735dae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 36/81] fix: bit operators in updates and deletes only on bits

---
 linker_resolve.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index 126b3d5..adf6028 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -319,6 +319,20 @@ resolve_up_const(struct config *cfg, struct struct_up_const *r)
 		errs++;
 	}
 
+	/* Logical AND/OR should only occur with bitfields. */
+
+	if (r->result->field != NULL &&
+	    (r->result->op == OPTYPE_AND ||
+	     r->result->op == OPTYPE_OR) &&
+	    r->result->field->type != FTYPE_BIT &&
+	    r->result->field->type != FTYPE_BITFIELD &&
+	    r->result->field->type != FTYPE_INT) {
+		gen_errx(cfg, &r->result->pos, "bit operations "
+			"only available on bit, bitfield, "
+			"and integer types");
+		errs++;
+	}
+
 	return errs == 0;
 }
 
-- 
2.43.0


From 9498a241ec7a3d90c3085cb54cf9b0c85b3b9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 37/81] fix: unnamed operations that are the same are refused

---
 linker.c | 100 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 100 insertions(+)

diff --git a/linker.c b/linker.c
index 958faaa..31ac159 100644
--- a/linker.c
+++ b/linker.c
@@ -430,6 +430,99 @@ check_unique_unique(struct config *cfg, struct strct *s)
 	return errs == 0;
 }
 
+/*
+ * See whether two field names and operators, as used in naming
+ * functions, are the same.
+ */
+static int
+urefq_equal(const struct urefq *q1, const struct urefq *q2)
+{
+	const struct uref	*r1, *r2;
+
+	r1 = TAILQ_FIRST(q1);
+	r2 = TAILQ_FIRST(q2);
+	while (r1 != NULL && r2 != NULL) {
+		if (r1->field != r2->field ||
+		    r1->op != r2->op || r1->mod != r2->mod)
+			return 0;
+		r1 = TAILQ_NEXT(r1, entries);
+		r2 = TAILQ_NEXT(r2, entries);
+	}
+
+	return r1 == NULL && r2 == NULL;
+}
+
+/*
+ * Make sure that no two unnamed operations are the same, as they'd end
+ * up with the same function name.
+ * Returns zero on failure, non-zero on success.
+ */
+static int
+check_unique_ops(struct config *cfg, const struct strct *s)
+{
+	const struct search	*q, *qq;
+	const struct sent	*t, *tt;
+	const struct update	*u, *uu;
+	size_t			 errs = 0;
+
+	TAILQ_FOREACH(q, &s->sq, entries) {
+		if (q->name != NULL)
+			continue;
+		qq = q;
+		while ((qq = TAILQ_NEXT(qq, entries)) != NULL) {
+			if (qq->name != NULL || qq->type != q->type)
+				continue;
+			t = TAILQ_FIRST(&q->sntq);
+			tt = TAILQ_FIRST(&qq->sntq);
+			while (t != NULL && tt != NULL) {
+				if (t->op != tt->op ||
+				    strcasecmp(t->fname, tt->fname))
+					break;
+				t = TAILQ_NEXT(t, entries);
+				tt = TAILQ_NEXT(tt, entries);
+			}
+			if (t != NULL || tt != NULL)
+				continue;
+			gen_errx(cfg, &qq->pos,
+				"duplicate unnamed query");
+			errs++;
+		}
+	}
+
+	TAILQ_FOREACH(u, &s->uq, entries) {
+		if (u->name != NULL)
+			continue;
+		uu = u;
+		while ((uu = TAILQ_NEXT(uu, entries)) != NULL) {
+			if (uu->name != NULL ||
+			    (u->flags & UPDATE_ALL) !=
+			    (uu->flags & UPDATE_ALL) ||
+			    !urefq_equal(&u->mrq, &uu->mrq) ||
+			    !urefq_equal(&u->crq, &uu->crq))
+				continue;
+			gen_errx(cfg, &uu->pos,
+				"duplicate unnamed update");
+			errs++;
+		}
+	}
+
+	TAILQ_FOREACH(u, &s->dq, entries) {
+		if (u->name != NULL)
+			continue;
+		uu = u;
+		while ((uu = TAILQ_NEXT(uu, entries)) != NULL) {
+			if (uu->name != NULL ||
+			    !urefq_equal(&u->crq, &uu->crq))
+				continue;
+			gen_errx(cfg, &uu->pos,
+				"duplicate unnamed delete");
+			errs++;
+		}
+	}
+
+	return errs == 0;
+}
+
 /*
  * Make sure that the rolemap contains unique roles.
  * Returns zero on failure (duplicate roles), non-zero otherwise.
@@ -519,6 +612,13 @@ ort_parse_close(struct config *cfg)
 	if (i > 0)
 		return 0;
 
+	/* Check for duplicates of unnamed operations. */
+
+	TAILQ_FOREACH(p, &cfg->sq, entries)
+		i += !check_unique_ops(cfg, p);
+	if (i > 0)
+		return 0;
+
 	/* Check that each rolemap has no duplicate roles. */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-- 
2.43.0


From 0d4a057cfdfad150e962e13365d15af7ef2c8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 38/81] fix: explicit enumeration items are not numbered
 automatically

---
 parser_enum.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 6eb630a..f0407dc 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -211,12 +211,14 @@ parse_enum_data(struct parse *p, struct enm *e)
 					maxvalue = ei->value;
 		maxvalue = maxvalue < 0 ? 0 : maxvalue + 1;
 		TAILQ_FOREACH(ei, &e->eq, entries)
-			if (maxvalue == INT64_MAX) {
+			if (!(ei->flags & EITEM_AUTO)) {
+				continue;
+			} else if (maxvalue == INT64_MAX) {
 				parse_errx(p, "integer overflow "
 					"when assigning dynamic "
 					"enum value");
 				return;
-			} else if ((ei->flags & EITEM_AUTO))
+			} else
 				ei->value = maxvalue++;
 	}
 
-- 
2.43.0


From 59b38af17be37968834baea7b16f7cdac4cf088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 39/81] fix: identifiers are no keywords of C

---
 parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.c b/parser.c
index 065383c..d31c31b 100644
--- a/parser.c
+++ b/parser.c
@@ -54,17 +54,24 @@ static	const char *const badidents[] = {
 	"extern",
 	"float",
 	"goto",
+	"inline",
+	"int",
 	"long",
 	"register",
+	"restrict",
+	"return",
 	"short",
 	"signed",
+	"sizeof",
 	"static",
 	"struct",
+	"switch",
 	"typedef",
 	"union",
 	"unsigned",
 	"void",
 	"volatile",
+	"while",
 	/* Things not allowed in SQLite. */
 	"ABORT",
 	"ACTION",
-- 
2.43.0


From 583a323bc104cfac49d679010290582fec0d6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 40/81] fix: the manual page of configurations without inserts
 is complete

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..24bc9bf 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From 67e22873f0b4ccdd165495e9b964272596331459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 41/81] fix: structures are ordered by their longest chain of
 references

The heights that order structures were summed up along one visit per
starting point and none from structures already seen, so a structure
could come before one of its members (an incomplete type in the C
header), depending on the order of declaration.
---
 linker.c | 25 +++++++++----------------
 ort.h    |  1 -
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/linker.c b/linker.c
index 31ac159..d96a012 100644
--- a/linker.c
+++ b/linker.c
@@ -83,25 +83,25 @@ gen_errx(struct config *cfg,
 
 /*
  * Recursively annotate our height from each node.
- * We only do this for FTYPE_STRUCT objects.
+ * The height of a structure is its longest path from any other.
+ * We only do this for FTYPE_STRUCT objects, which are not recursive.
  */
 static void
-annotate(struct ref *ref, size_t height, size_t colour)
+annotate(struct ref *ref, size_t height)
 {
 	struct field	*f;
 	struct strct	*p;
 
 	p = ref->target->parent;
 
-	if (p->colour == colour)
+	if (p->height >= height)
 		return;
 
-	p->colour = colour;
-	p->height += height;
+	p->height = height;
 
 	TAILQ_FOREACH(f, &p->fq, entries)
 		if (FTYPE_STRUCT == f->type)
-			annotate(f->ref, height + 1, colour);
+			annotate(f->ref, height + 1);
 }
 
 /*
@@ -586,7 +586,7 @@ ort_parse_close(struct config *cfg)
 	struct field	 *f;
 	struct rolemap	 *rm;
 	struct search	 *srch;
-	size_t		  colour = 1, sz = 0, i = 0;
+	size_t		  sz = 0, i = 0;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
 		gen_errx(cfg, NULL, "no structures in configuration");
@@ -657,22 +657,15 @@ ort_parse_close(struct config *cfg)
 
 	/*
 	 * Now follow and order all outbound links for structs.
-	 * From the get-go, we don't descend into structures that we've
-	 * already coloured.
 	 * This establishes a "height" that we'll use when ordering our
 	 * structures in the header file.
 	 */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries) {
 		sz++;
-		if (p->colour)
-			continue;
 		TAILQ_FOREACH(f, &p->fq, entries)
-			if (FTYPE_STRUCT == f->type) {
-				p->colour = colour;
-				annotate(f->ref, 1, colour);
-			}
-		colour++;
+			if (FTYPE_STRUCT == f->type)
+				annotate(f->ref, 1);
 	}
 	assert(sz > 0);
 
diff --git a/ort.h b/ort.h
index 73375be..9127de2 100644
--- a/ort.h
+++ b/ort.h
@@ -415,7 +415,6 @@ struct	strct {
 	char		  *doc;
 	size_t		   height; /* dep order (XXX: remove) */
 	struct pos	   pos;
-	size_t		   colour; /* during linkage (XXX: remove) */
 	struct field	  *rowid;
 	struct fieldq	   fq;
 	struct searchq	   sq;
-- 
2.43.0


From 7962ebcd37658c132006b45c8579eeda74186b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 42/81] fix: strings of JSON audits keep their backslashes and
 control characters

---
 audit-json.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..eb0bf72 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -195,6 +195,9 @@ print_doc(const char *cp)
 
 	while ('\0' != (c = *cp++))
 		switch (c) {
+		case ('\\'):
+			fputs(*cp == '"' ? "\\" : "\\\\", stdout);
+			break;
 		case ('\b'):
 			fputs("\\b", stdout);
 			break;
@@ -212,7 +215,7 @@ print_doc(const char *cp)
 			break;
 		default:
 			if ((unsigned char)c < 32)
-				printf("\\u%.4u", c);
+				printf("\\u%.4x", c);
 			else
 				fputc(c, stdout);
 			break;
-- 
2.43.0


From baaa5db4c9c9fd59e432bf020e997e62067d9979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 43/81] fix: audits do not report passwords as exported

---
 audit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/audit.c b/audit.c
index 15b43ec..ed28210 100644
--- a/audit.c
+++ b/audit.c
@@ -76,6 +76,7 @@ follow(const struct strct *st, const struct role *r, struct auditq *aq,
 		TAILQ_FOREACH(fd, &st->fq, entries) {
 			a->ar.fds[i].fd = fd;
 			a->ar.fds[i].exported = 
+				fd->type != FTYPE_PASSWORD &&
 				!(fd->flags & FIELD_NOEXPORT) &&
 				!rolemap_has(fd->rolemap, r);
 			i++;
-- 
2.43.0


From bb09bf05d87000955e78dfe5db9114e824871bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 44/81] fix: audits take the export of a distinct query from
 what it returns

---
 audit.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/audit.c b/audit.c
index ed28210..1f402f5 100644
--- a/audit.c
+++ b/audit.c
@@ -178,15 +178,6 @@ ort_audit(const struct role *r, const struct config *cfg)
 	TAILQ_INIT(aq);
 
 	TAILQ_FOREACH(st, &cfg->sq, entries) {
-		exported = 1;
-		TAILQ_FOREACH(rm, &st->rq, entries) 
-			if (rm->type == ROLEMAP_NOEXPORT &&
-			    rm->f == NULL &&
-			    rolemap_has(rm, r)) {
-				exported = 0;
-				break;
-			}
-
 		if (st->ins != NULL &&
 		    rolemap_has(st->ins->rolemap, r)) {
 			a = calloc(1, sizeof(struct audit));
@@ -225,6 +216,14 @@ ort_audit(const struct role *r, const struct config *cfg)
 				a->sr = sr;
 				sst = sr->dst != NULL ? 
 					sr->dst->strct : st;
+				exported = 1;
+				TAILQ_FOREACH(rm, &sst->rq, entries) 
+					if (rm->type == ROLEMAP_NOEXPORT &&
+					    rm->f == NULL &&
+					    rolemap_has(rm, r)) {
+						exported = 0;
+						break;
+					}
 				if (!follow(sst, r, aq, sr, exported, NULL))
 					goto err;
 			}
-- 
2.43.0


From a12178f2805a24c6bf3b6501029d26e311006b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 45/81] fix: isnull labels of enumerations are extracted,
 updated and joined

---
 lang-xliff.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 66dc4ad..221749d 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -715,7 +715,7 @@ xliff_join_xliff(struct config *cfg, int copy,
 	struct bitidx	*bi;
 	int		 rc;
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries) {
 			rc = xliff_join_unit
 			    (cfg, &ei->labels, copy, NULL, 
@@ -723,6 +723,14 @@ xliff_join_xliff(struct config *cfg, int copy,
 			if (rc <= 0)
 				return rc;
 		}
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_join_unit
+		    (cfg, &e->labels_null, copy, 
+		     "isnull", lang, x, &e->pos, mq);
+		if (rc <= 0)
+			return rc;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
@@ -826,13 +834,20 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 
 	assert(x != NULL);
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries) {
 			rc = xliff_update_unit
 			    (mq, &ei->labels, NULL, x, &ei->pos);
 			if (rc <= 0)
 				goto out;
 		}
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_update_unit
+		    (mq, &e->labels_null, "isnull", x, &e->pos);
+		if (rc <= 0)
+			goto out;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
@@ -965,11 +980,16 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	/* Extract all unique labels strings. */
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (!xliff_extract_unit(mq, f, &ei->labels, 
 			    NULL, &ei->pos, &s, &ssz))
 				goto out;
+		if (!TAILQ_EMPTY(&e->labels_null) &&
+		    !xliff_extract_unit(mq, f, &e->labels_null,
+		    "isnull", &e->pos, &s, &ssz))
+			goto out;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries)
-- 
2.43.0


From bc3900b2b359c62c9662da280d4c877f596c88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 46/81] fix: attributes of XLIFF files are escaped

---
 lang-xliff.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 221749d..5648962 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -818,7 +818,8 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	const struct eitem 	*ei;
 	const struct bitf	*b;
 	const struct bitidx	*bi;
-	char			*sbuf = NULL, *tbuf = NULL;
+	char			*sbuf = NULL, *tbuf = NULL, *nbuf = NULL,
+				*obuf = NULL, *slbuf = NULL, *tlbuf = NULL;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
 	if ((p = XML_ParserCreate(NULL)) == NULL)
@@ -867,6 +868,11 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	}
 
 	rc = -1;
+	if ((tlbuf = escape(x->trglang)) == NULL ||
+	    (slbuf = escape(x->srclang)) == NULL ||
+	    (obuf = escape(x->original)) == NULL)
+		goto out;
+
 	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
 
 	if (fprintf(f, 
@@ -874,10 +880,12 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file target-language=\"%s\" source-language=\"%s\" "
 	    "original=\"%s\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", x->trglang, x->srclang, x->original) < 0)
+            "\t\t<body>\n", tlbuf, slbuf, obuf) < 0)
 		goto out;
 
 	for (i = 0; i < x->usz; i++) {
+		if ((nbuf = escape(x->u[i].name)) == NULL)
+			goto out;
 		if ((sbuf = escape(x->u[i].source)) == NULL)
 			goto out;
 		if (x->u[i].target != NULL &&
@@ -891,14 +899,14 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, sbuf) < 0)
+			    nbuf, sbuf, sbuf) < 0)
 				goto out;
 		} else if (tbuf == NULL) {
 			if (fprintf(f, 
 			    "\t\t\t<trans-unit id=\"%s\">\n"
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf) < 0)
+			    nbuf, sbuf) < 0)
 				goto out;
 		} else {
 			if (fprintf(f, 
@@ -906,12 +914,13 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, tbuf) < 0)
+			    nbuf, sbuf, tbuf) < 0)
 				goto out;
 		}
+		free(nbuf);
 		free(sbuf);
 		free(tbuf);
-		sbuf = tbuf = NULL;
+		nbuf = sbuf = tbuf = NULL;
 	}
 
 	if (fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) == EOF)
@@ -919,8 +928,12 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 
 	rc = 1;
 out:
+	free(nbuf);
 	free(sbuf);
 	free(tbuf);
+	free(tlbuf);
+	free(slbuf);
+	free(obuf);
 	xparse_xliff_free(x);
 	XML_ParserFree(p);
 	if (mq == &tmpq)
@@ -1011,12 +1024,19 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 	 * Escape all '<' and '&' as '&lt;' and '&amp;'.
 	 */
 
-	if (fprintf(f, "<xliff version=\"1.2\" "
+	buf = escape(cfg->fnamesz ? cfg->fnames[0] : "");
+	if (buf == NULL)
+		goto out;
+	rc = fprintf(f, "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file source-language=\"TODO\" original=\"%s\" "
 	    "target-language=\"TODO\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", cfg->fnamesz ? cfg->fnames[0] : "") < 0)
+            "\t\t<body>\n", buf);
+	free(buf);
+	if (rc < 0) {
+		rc = 0;
 		goto out;
+	}
 
 	for (i = 0; i < ssz; i++) {
 		rc = 0;
-- 
2.43.0


From 2adc4b1c4d634fd0e62ab4c323306a336bba68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 47/81] fix: identifiers of units added to XLIFF files are
 unique

---
 lang-xliff.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 5648962..1e1b359 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -654,7 +654,7 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 	const char *type, struct xliffset *x, const struct pos *pos)
 {
 	const struct label		*l;
-	size_t			 i;
+	size_t			 i, id;
 	struct xliffunit	*u;
 	char			 nbuf[32];
 	void			*pp;
@@ -690,8 +690,19 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 		if (pp == NULL)
 			return -1;
 		x->u = pp;
-		u = &x->u[x->usz++];
-		snprintf(nbuf, sizeof(nbuf), "%zu", x->usz);
+		u = &x->u[x->usz];
+
+		/* Use the first free number for the identifier. */
+
+		id = x->usz;
+		do {
+			snprintf(nbuf, sizeof(nbuf), "%zu", ++id);
+			for (i = 0; i < x->usz; i++)
+				if (strcmp(x->u[i].name, nbuf) == 0)
+					break;
+		} while (i < x->usz);
+
+		x->usz++;
 		memset(u, 0, sizeof(struct xliffunit));
 		if ((u->name = strdup(nbuf)) == NULL)
 			return -1;
-- 
2.43.0


From 37a905721dd3ff27fa67bc62ced2a5b53009ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 48/81] fix: double quotes of translations are escaped in
 joined configurations

---
 lang-xliff.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 1e1b359..5f46b1d 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -459,6 +459,33 @@ unescape(char *s)
 	*ns = '\0';
 }
 
+/*
+ * Like strdup(3), but have all double quotes follow a backslash, as
+ * they do in labels of configurations.
+ */
+static char *
+quote(const char *s)
+{
+	size_t	 i, count;
+	char	*buf;
+
+	for (i = count = 0; s[i] != '\0'; i++)
+		if (s[i] == '"')
+			count++;
+
+	if ((buf = malloc(i + count + 1)) == NULL)
+		return NULL;
+
+	for (i = count = 0; s[i] != '\0'; i++) {
+		if (s[i] == '"' && (i == 0 || s[i - 1] != '\\'))
+			buf[count++] = '\\';
+		buf[count++] = s[i];
+	}
+
+	buf[count] = '\0';
+	return buf;
+}
+
 static void
 xend(void *dat, const XML_Char *s)
 {
@@ -640,7 +667,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
-	if ((l->label = strdup(targ)) == NULL)
+	if ((l->label = quote(targ)) == NULL)
 		return -1;
 	TAILQ_INSERT_TAIL(q, l, entries);
 	return 1;
-- 
2.43.0


From 4896308eb1f3f4e5e6a653d1bd2b9e6677effc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 49/81] fix: empty source and target elements of XLIFF files
 are refused instead of dereferenced

---
 lang-xliff.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 5f46b1d..e5fdb2e 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -505,11 +505,13 @@ xend(void *dat, const XML_Char *s)
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
 		assert(p->curunit != NULL);
-		unescape(p->curunit->target);
+		if (p->curunit->target != NULL)
+			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
 		assert(p->curunit != NULL);
-		unescape(p->curunit->source);
+		if (p->curunit->source != NULL)
+			unescape(p->curunit->source);
 		p->type = 0;
 	}
 }
-- 
2.43.0


From 4ece5157644533de26a15d95f8e7826c3d83eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 50/81] fix: XML documents without <xliff> or <file> are
 refused as XLIFF files

---
 lang-xliff.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index e5fdb2e..49bc64b 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -305,7 +305,7 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 			return;
 		}
 	} else if (strcmp(s, "trans-unit") == 0) {
-		if (p->set->trglang == NULL) {
+		if (p->set == NULL || p->set->trglang == NULL) {
 			xparse_err(p, "<trans-unit> not in <file>");
 			XML_StopParser(p->p, 0);
 			return;
@@ -565,6 +565,12 @@ xliff_read(struct msgq *mq, FILE *f,
 		return 0;
 	} while (!feof(f));
 
+	if (xp->set == NULL || xp->set->trglang == NULL) {
+		xparse_err(xp, "missing <xliff> or <file>");
+		xparse_free(xp);
+		return 0;
+	}
+
 	*ret = xp->set;
 	xp->set = NULL;
 	xparse_free(xp);
-- 
2.43.0


From 458140072b845753037c9865405657112ea70f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 51/81] fix: target languages of XLIFF files are matched
 without regard to case

---
 lang-xliff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 49bc64b..65fe447 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -822,7 +822,7 @@ xliff_join_single(struct config *cfg, int copy,
 	assert(x->trglang != NULL);
 
 	for (i = 0; i < cfg->langsz; i++)
-		if (strcmp(cfg->langs[i], x->trglang) == 0)
+		if (strcasecmp(cfg->langs[i], x->trglang) == 0)
 			break;
 
 	if (i == cfg->langsz) {
-- 
2.43.0


From b8e222b911a5d37913f89c092ac49016ef73870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 52/81] fix: white space of labels is kept when writing
 configurations

---
 writer.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/writer.c b/writer.c
index 2a9535d..f1fff3d 100644
--- a/writer.c
+++ b/writer.c
@@ -648,8 +648,6 @@ static int
 parse_write_label(struct writer *w, const struct config *cfg,
 	const struct label *p, size_t pos)
 {
-	const char	*cp = p->label;
-
 	if (pos && !wprint(w, "\n\t\tjslabel"))
 		return 0;
 	else if (pos == 0 && !wprint(w, " jslabel"))
@@ -659,18 +657,8 @@ parse_write_label(struct writer *w, const struct config *cfg,
 	if (!wprint(w, " \""))
 		return 0;
 
-	while (*cp != '\0') {
-		if (!isspace((unsigned char)*cp)) {
-			if (!wputc(w, *cp))
-				return 0;
-			cp++;
-			continue;
-		}
-		if (!wputc(w, ' '))
-			return 0;
-		while (isspace((unsigned char)*cp))
-			cp++;
-	}
+	if (!wputs(w, p->label))
+		return 0;
 
 	return wputc(w, '"');
 }
-- 
2.43.0


From 1defdfbf6d2594f2376d32d96e0504a593728ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 53/81] fix: ort-xliff reads the XLIFF file from standard input
 if none follows -x

---
 xliff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xliff.c b/xliff.c
index ad30878..b2f736c 100644
--- a/xliff.c
+++ b/xliff.c
@@ -100,7 +100,7 @@ main(int argc, char *argv[])
 
 		/* If we have 2 w/o -x, it's old-new. */
 
-		if (args.insz == 0 && sz == 2)
+		if (confsz == sz && sz == 2)
 			args.insz = confsz = xmlstart = 1;
 
 		if (OP_UPDATE == op && args.insz > 1)
-- 
2.43.0


From 39fd453977d2dd5789d3ad23bf42c5005c8139a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 54/81] fix: empty elements refused as XLIFF files do not fail
 an assertion when closed

---
 lang-xliff.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 65fe447..613df31 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -493,8 +493,15 @@ xend(void *dat, const XML_Char *s)
 
 	XML_SetDefaultHandlerExpand(p->p, NULL);
 
+	/* 
+	 * An empty element is also closed after its start has stopped
+	 * the parser.
+	 */
+
+	if (p->curunit == NULL)
+		return;
+
 	if (strcmp(s, "trans-unit") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source == NULL || 
 		    p->curunit->target == NULL) {
 			xparse_err(p, "missing <source> or "
@@ -504,12 +511,10 @@ xend(void *dat, const XML_Char *s)
 		}
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->target != NULL)
 			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source != NULL)
 			unescape(p->curunit->source);
 		p->type = 0;
-- 
2.43.0


From d3ea9013fd4ad87d23d89d529f936b3027a9afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 55/81] fix: ort-xliff exits with failure if files cannot be
 read or written

---
 xliff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xliff.c b/xliff.c
index b2f736c..38ce45b 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,7 +172,7 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (!rc)
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -193,7 +193,7 @@ out:
 
 	free(confs);
 	free(args.in);
-	return !rc;
+	return rc <= 0;
 usage:
 	fprintf(stderr, 
 		"usage: %s [-c] -j [config...] -x [xliff...]\n"
-- 
2.43.0


From 6ea6966f67d9503d6261562a0f3f30bc262c2ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 56/81] fix: line breaks and backslashes of labels are escaped
 in JavaScript

---
 lang-javascript.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index a43de9a..a6784ed 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -72,7 +72,8 @@ static	const char *types[FTYPE__MAX] = {
 
 /*
  * Escape JavaScript string literal.
- * This escapes backslashes and single apostrophes.
+ * This escapes backslashes (except as already escaping a double quote
+ * in the configuration), single apostrophes, and line breaks.
  */
 static int
 gen_label_text(FILE *f, const char *cp)
@@ -85,6 +86,20 @@ gen_label_text(FILE *f, const char *cp)
 			if (fputs("\\\'", f) == EOF)
 				return 0;
 			break;
+		case '\\':
+			if (*cp != '"' && fputc('\\', f) == EOF)
+				return 0;
+			if (fputc('\\', f) == EOF)
+				return 0;
+			break;
+		case '\n':
+			if (fputs("\\n", f) == EOF)
+				return 0;
+			break;
+		case '\r':
+			if (fputs("\\r", f) == EOF)
+				return 0;
+			break;
 		default:
 			if (fputc(c, f) == EOF)
 				return 0;
-- 
2.43.0


From 582c4c7c51c3e56d4ddd839802305818b217d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 57/81] fix: nodejs limits of texts are on bytes, not UTF-16
 units

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 02d58e3..2d50f6d 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1639,7 +1639,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
-- 
2.43.0


From 46a380f2678b415da26c3d9edc98e718ba817449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 58/81] fix: nodejs validators of email and blob fields check
 limits

---
 lang-nodejs.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 2d50f6d..393feba 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1628,7 +1628,17 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (fputs
+		    ("\t\t\tconst nv: Buffer = "
+		     "Buffer.from(v);\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1652,8 +1662,16 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
 		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
-		     "em : null;\n", f) == EOF)
+		     "\t\t\tif (typeof(em) !== 'string')\n"
+		     "\t\t\t\treturn null;\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(Buffer.byteLength(em) %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn em;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_REAL:
-- 
2.43.0


From 5bceafb4a9753136865bc525427bb0d28ea73d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 59/81] fix: C validators of blob fields check limits, and
 every declared one is defined

---
 lang-c-header.c |  2 ++
 lang-c-source.c | 33 ++++++++++++++++++---------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index 96195f6..9efe386 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -867,6 +867,8 @@ gen_valids(FILE *f, const struct config *cfg, const struct strct *p)
 	const struct field	*fd;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
+		if (fd->type == FTYPE_STRUCT)
+			continue;
 		if (fputc('\n', f) == EOF)
 			return 0;
 		if (!gen_commentv(f, 0, COMMENT_C,
diff --git a/lang-c-source.c b/lang-c-source.c
index 0938e62..01b2bfc 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2102,9 +2102,8 @@ gen_valids_field(FILE *f,
 
 /*
  * Generate the validation function for the given field.
- * Exceptions: struct fields don't have validators, blob fields always
- * validate, and non-enumerations without limits use the native kcgi(3)
- * validator function.
+ * Exceptions: struct fields don't have validators, and blob fields have
+ * no type to check besides their limits.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2115,22 +2114,26 @@ gen_valids(FILE *f, const struct strct *p)
 	const struct eitem	*ei;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_STRUCT ||
-		    fd->type == FTYPE_BLOB)
-			continue;
-		if (fd->type != FTYPE_ENUM &&
-		    TAILQ_EMPTY(&fd->fvq))
+		if (fd->type == FTYPE_STRUCT)
 			continue;
 
-		assert(validtypes[fd->type] != NULL);
-
 		if (!gen_func_valid(f, fd, 0))
 			return 0;
-		if (fprintf(f, "{\n"
-		    "\tif (!%s(p))\n"
-		    "\t\treturn 0;\n", validtypes[fd->type]) < 0)
+		if (fputs("{\n", f) == EOF)
 			return 0;
 
+		if (fd->type == FTYPE_BLOB) {
+			if (TAILQ_EMPTY(&fd->fvq) &&
+			    fputs("\t(void)p;\n", f) == EOF)
+				return 0;
+		} else {
+			assert(validtypes[fd->type] != NULL);
+			if (fprintf(f, "\tif (!%s(p))\n"
+			    "\t\treturn 0;\n",
+			    validtypes[fd->type]) < 0)
+				return 0;
+		}
+
 		/* Enumeration: check against knowns. */
 
 		if (fd->type == FTYPE_ENUM) {
@@ -2819,12 +2822,12 @@ gen_valid(FILE *f, const struct strct *p)
 
 	/*
 	 * Don't generate an entry for structs.
-	 * Blobs always succeed (NULL validator).
+	 * Blobs without limits always succeed (NULL validator).
 	 * Non-enums without limits use the default function.
 	 */
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_BLOB) {
+		if (fd->type == FTYPE_BLOB && TAILQ_EMPTY(&fd->fvq)) {
 			if (fprintf(f, "\t{ NULL, \"%s-%s\" },\n",
 			    p->name, fd->name) < 0)
 				return 0;
-- 
2.43.0


From 408054d279079d46e216d6a927dec0abe2e1ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 60/81] fix: C validators of limited real fields refuse what is
 not a number

---
 lang-c-source.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 01b2bfc..19af075 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -132,6 +132,18 @@ static	const char *const validbins[VALIDATE__MAX] = {
 	"!=", /* VALIDATE_EQ */
 };
 
+/*
+ * As above, but not negated: used where the negation differs, as for
+ * real numbers, which may be not-a-number.
+ */
+static	const char *const validrealbins[VALIDATE__MAX] = {
+	">=", /* VALIDATE_GE */
+	"<=", /* VALIDATE_LE */
+	">", /* VALIDATE_GT */
+	"<", /* VALIDATE_LT */
+	"==", /* VALIDATE_EQ */
+};
+
 static	int print_src(FILE *, size_t, const char *, ...)
 	__attribute__((format(printf, 3, 4)));
 
@@ -2081,11 +2093,12 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s ", validbins[v->type]) < 0)
+		    "\tif (!(p->parsed.d %s ",
+		    validrealbins[v->type]) < 0)
 			return 0;
 		if (ort_print_real(f, v->d.value.decimal) < 0)
 			return 0;
-		if (fputs(")\n\t\treturn 0;\n", f) == EOF)
+		if (fputs("))\n\t\treturn 0;\n", f) == EOF)
 			return 0;
 		break;
 	default:
-- 
2.43.0


From c7909441f15a186d2e8ff7ffb43b0a497ab77406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 61/81] fix: importing JSON does not pass negative characters
 to isdigit

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 19af075..c914711 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2396,7 +2396,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			if (fputs("\t\t\tif ((t[j+1].type != JSMN_STRING && "
 			    "t[j+1].type != JSMN_PRIMITIVE) ||\n"
 			    "\t\t\t    (buf[t[j+1].start] != \'-\' &&\n"
-			    "\t\t\t    !isdigit((unsigned int)"
+			    "\t\t\t    !isdigit((unsigned char)"
 			    "buf[t[j+1].start])))\n"
 			    "\t\t\t\treturn 0;\n", f) == EOF)
 				return 0;
@@ -2404,7 +2404,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_BIT:
 			if (fputs("\t\t\tif ((t[j+1].type != JSMN_STRING && "
 			    "t[j+1].type != JSMN_PRIMITIVE) ||\n"
-			    "\t\t\t    !isdigit((unsigned int)"
+			    "\t\t\t    !isdigit((unsigned char)"
 			    "buf[t[j+1].start]))\n"
 			    "\t\t\t\treturn 0;\n", f) == EOF)
 				return 0;
-- 
2.43.0


From edd85a8b46a344548a380644194a66652929c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 62/81] fix: importing JSON does not read beyond the tokens
 there are

---
 lang-c-source.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index c914711..b8a3ad0 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2361,7 +2361,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	if (fputs("\n"
 	    "\tif (toksz < 1 || t[0].type != JSMN_OBJECT)\n"
 	    "\t\treturn 0;\n\n"
-	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n", f) == EOF)
+	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n"
+	    "\t\tif (j + 2 >= toksz)\n"
+	    "\t\t\treturn 0;\n", f) == EOF)
 		return 0;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
@@ -2508,7 +2510,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_STRUCT:
 			if (fprintf(f, "\t\t\trc = jsmn_%s\n"
 			    "\t\t\t\t(&p->%s, buf,\n"
-			    "\t\t\t\t &t[j+1], toksz - j);\n"
+			    "\t\t\t\t &t[j+1], toksz - (j + 1));\n"
 			    "\t\t\tif (rc <= 0)\n"
 			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj += rc;\n",
@@ -2605,7 +2607,8 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\t\treturn -1;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
-	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j);\n"
+	    "\t\trc = jsmn_%s(&(*p)[i], buf, "
+	    "&t[j+1], toksz - (j + 1));\n"
 	    "\t\tif (rc <= 0)\n"
 	    "\t\t\treturn rc;\n"
 	    "\t\tj += rc;\n"
-- 
2.43.0


From 9f81a5b3a5c0db048502ed7789008dd4214d0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 63/81] fix: objects of nullable references are imported from
 JSON, and cleared

---
 lang-c-source.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index b8a3ad0..157ea8d 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2376,7 +2376,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 
 		/* Check correct kind of token. */
 
-		if ((fd->flags & FIELD_NULL) && fprintf
+		if (((fd->flags & FIELD_NULL) ||
+		     (fd->type == FTYPE_STRUCT &&
+		      (fd->ref->source->flags & FIELD_NULL))) && fprintf
 		    (f, "\t\t\tif (t[j+1].type == "
 		     "JSMN_PRIMITIVE &&\n"
 		     "\t\t\t    buf[t[j+1].start] == \'n\') {\n"
@@ -2561,7 +2563,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			if (fd->ref->source->flags & FIELD_NULL) {
 				if (fprintf(f, "\tif (p->has_%s)\n"
 			            "\t\tjsmn_%s_clear(&p->%s);\n",
-				    fd->ref->source->name,
+				    fd->name,
 				    fd->ref->target->parent->name,
 				    fd->name) < 0)
 					return 0;
-- 
2.43.0


From 3335acc62797818232475c8901abc181ce3c4f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 64/81] fix: numbers imported from JSON are all of the value
 and within range

---
 jsmn.c          | 22 +++++++++++-----------
 lang-c-source.c |  1 +
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index cb0b249..c1c4a40 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -317,8 +317,7 @@ jsmn_eq(const char *json, const jsmntok_t *tok, const char *s)
 static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
-	char 	 tmp[128];
-	int	 rc;
+	char 	 tmp[128], *ep;
 
 	if (sz > sizeof(tmp) - 1)
 		return 0;
@@ -326,17 +325,19 @@ jsmn_parse_real(const char *buf, size_t sz, double *ret)
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%lf", ret)) == -1)
-		return -1;
+	/* No hexadecimal, infinity, etc. */
 
-	return 1 == rc;
+	if (strspn(tmp, "0123456789+-.eE") != sz)
+		return 0;
+
+	*ret = strtod(tmp, &ep);
+	return ep != tmp && *ep == '\0';
 }
 
 static int
 jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 {
-	char 	 tmp[32];
-	int	 rc;
+	char 	 tmp[32], *ep;
 
 	if (sz > sizeof(tmp) - 1)
 		return 0;
@@ -344,8 +345,7 @@ jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%" SCNd64, ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	errno = 0;
+	*ret = strtoll(tmp, &ep, 10);
+	return ep != tmp && *ep == '\0' && errno != ERANGE;
 }
diff --git a/lang-c-source.c b/lang-c-source.c
index 157ea8d..67bae11 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2976,6 +2976,7 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	if (args->flags & ORT_LANG_C_JSON_JSMN)
 		if (fputs(
 		    "#include <ctype.h>\n"
+		    "#include <errno.h>\n"
 		    "#include <inttypes.h>\n", f) == EOF)
 			return 0;
 
-- 
2.43.0


From 7ab19fcd3e824d5818f5f1e43579b3203cbcffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 65/81] fix: escapes in strings imported from JSON are replaced

---
 jsmn.c          | 101 ++++++++++++++++++++++++++++++++++++++++++++++++
 lang-c-source.c |  19 +++++----
 2 files changed, 112 insertions(+), 8 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index c1c4a40..7d49c92 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -314,6 +314,107 @@ jsmn_eq(const char *json, const jsmntok_t *tok, const char *s)
 	return 0;
 }
 
+/*
+ * The code unit of a "\uXXXX" escape or -1.
+ */
+static long
+jsmn_parse_hex(const char *buf, size_t sz)
+{
+	char	 tmp[5];
+
+	if (sz < 6 || buf[0] != '\\' || buf[1] != 'u')
+		return -1;
+	memcpy(tmp, buf + 2, 4);
+	tmp[4] = '\0';
+	if (strspn(tmp, "0123456789abcdefABCDEF") != 4)
+		return -1;
+	return strtol(tmp, NULL, 16);
+}
+
+/*
+ * Allocate the contents of a string, with escapes replaced.
+ * Returns <0 on memory failure, 0 if there's no such string (NUL or
+ * unpaired surrogates), >0 on success.
+ */
+static int
+jsmn_parse_text(const char *buf, size_t sz, char **ret)
+{
+	size_t	 i;
+	char	*cp;
+	long	 c, low;
+
+	/* Nothing is longer than its escape. */
+
+	free(*ret);
+	if ((cp = *ret = malloc(sz + 1)) == NULL)
+		return -1;
+
+	for (i = 0; i < sz; ) {
+		if (buf[i] != '\\' || i + 1 >= sz) {
+			*cp++ = buf[i++];
+			continue;
+		} else if (buf[i + 1] != 'u') {
+			switch (buf[i + 1]) {
+			case 'b':
+				*cp++ = '\b';
+				break;
+			case 'f':
+				*cp++ = '\f';
+				break;
+			case 'n':
+				*cp++ = '\n';
+				break;
+			case 'r':
+				*cp++ = '\r';
+				break;
+			case 't':
+				*cp++ = '\t';
+				break;
+			default:
+				*cp++ = buf[i + 1];
+				break;
+			}
+			i += 2;
+			continue;
+		}
+
+		c = jsmn_parse_hex(buf + i, sz - i);
+		i += 6;
+		if (c >= 0xd800 && c < 0xdc00) {
+			low = i < sz ? jsmn_parse_hex(buf + i, sz - i) : -1;
+			if (low < 0xdc00 || low > 0xdfff)
+				c = -1;
+			else
+				c = 0x10000 + ((c - 0xd800) << 10) +
+					(low - 0xdc00);
+			i += 6;
+		} else if (c >= 0xdc00 && c < 0xe000)
+			c = -1;
+
+		if (c <= 0) {
+			*cp = '\0';
+			return 0;
+		} else if (c < 0x80) {
+			*cp++ = c;
+		} else if (c < 0x800) {
+			*cp++ = 0xc0 | (c >> 6);
+			*cp++ = 0x80 | (c & 0x3f);
+		} else if (c < 0x10000) {
+			*cp++ = 0xe0 | (c >> 12);
+			*cp++ = 0x80 | ((c >> 6) & 0x3f);
+			*cp++ = 0x80 | (c & 0x3f);
+		} else {
+			*cp++ = 0xf0 | (c >> 18);
+			*cp++ = 0x80 | ((c >> 12) & 0x3f);
+			*cp++ = 0x80 | ((c >> 6) & 0x3f);
+			*cp++ = 0x80 | (c & 0x3f);
+		}
+	}
+
+	*cp = '\0';
+	return 1;
+}
+
 static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
diff --git a/lang-c-source.c b/lang-c-source.c
index 67bae11..815adc3 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2317,7 +2317,7 @@ static int
 gen_json_parse(FILE *f, const struct strct *p)
 {
 	const struct field	*fd;
-	int			 intcast = 0, hasstruct = 0,
+	int			 intcast = 0, hasrc = 0,
 				 hasblob = 0;
 
 	/* Whether we need conversion space. */
@@ -2337,8 +2337,11 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_BLOB:
 			hasblob = 1;
 			break;
+		case FTYPE_TEXT:
+		case FTYPE_PASSWORD:
+		case FTYPE_EMAIL:
 		case FTYPE_STRUCT:
-			hasstruct = 1;
+			hasrc = 1;
 			break;
 		default:
 			break;
@@ -2353,7 +2356,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		return 0;
 	if (intcast && fputs("\tint64_t tmpint;\n", f) == EOF)
 		return 0;
-	if ((hasblob || hasstruct) && fputs("\tint rc;\n", f) == EOF)
+	if ((hasblob || hasrc) && fputs("\tint rc;\n", f) == EOF)
 		return 0;
 	if (hasblob && fputs("\tchar *tmpbuf;\n", f) == EOF)
 		return 0;
@@ -2500,13 +2503,13 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_TEXT:
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
-			if (fprintf(f, "\t\t\tp->%s = strndup\n"
+			if (fprintf(f, "\t\t\trc = jsmn_parse_text\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
-			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
-			    "\t\t\tif (p->%s == NULL)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\t t[j+1].end - t[j+1].start, &p->%s);\n"
+			    "\t\t\tif (rc <= 0)\n"
+			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj++;\n",
-			    fd->name, fd->name) < 0)
+			    fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-- 
2.43.0


From ba4110ec298a697373d07af78df05ed5c6ace67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 66/81] fix: malformed base64 imported from JSON is a parse
 failure

---
 lang-c-source.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 815adc3..7fd467c 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2479,11 +2479,15 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_BLOB:
-			if (fprintf(f, "\t\t\ttmpbuf = strndup\n"
+			if (fprintf(f, "\t\t\ttmpbuf = NULL;\n"
+			    "\t\t\trc = jsmn_parse_text\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
-			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
-			    "\t\t\tif (tmpbuf == NULL)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\t t[j+1].end - t[j+1].start, &tmpbuf);\n"
+			    "\t\t\tif (rc <= 0) {\n"
+			    "\t\t\t\tfree(tmpbuf);\n"
+			    "\t\t\t\treturn rc;\n"
+			    "\t\t\t}\n"
+			    "\t\t\tfree(p->%s);\n"
 			    "\t\t\tp->%s = malloc((t[j+1].end - "
 			    "t[j+1].start) + 1);\n"
 			    "\t\t\tif (p->%s == NULL) {\n"
@@ -2494,9 +2498,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\t\t(t[j+1].end - t[j+1].start) + 1);\n"
 			    "\t\t\tfree(tmpbuf);\n"
 			    "\t\t\tif (rc < 0)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
-			    "\t\t\tj++;\n", fd->name, fd->name,
+			    "\t\t\tj++;\n", fd->name, fd->name, fd->name,
 			    fd->name, fd->name) < 0)
 				return 0;
 			break;
-- 
2.43.0


From f52983474b6f901cf6770c72524cd67acefff70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 67/81] fix: C functions that fill nullable references are
 there only if needed

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 7fd467c..a20894a 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2790,7 +2790,7 @@ gen_functions(FILE *f, const struct config *cfg, const struct strct *p,
 			return 0;
 		if (!gen_unfill_r(f, p))
 			return 0;
-		if (!gen_reffind(f, cfg, p))
+		if (fd != NULL && !gen_reffind(f, cfg, p))
 			return 0;
 		if (!gen_free(f, p))
 			return 0;
-- 
2.43.0


From a2a029ba3d5ec7a07dee911fd218df24d46a5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 68/81] fix: enumerations imported from JSON are not truncated

---
 lang-c-source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index a20894a..1a06346 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2466,7 +2466,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "&tmpint))\n"
 			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s = tmpint;\n"
-			    "\t\t\tj++;\n", fd->name) < 0)
+			    "\t\t\tif ((int64_t)p->%s != tmpint)\n"
+			    "\t\t\t\treturn 0;\n"
+			    "\t\t\tj++;\n", fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_REAL:
-- 
2.43.0


From cafb2d6b6d5cb00535e57524cb50c3062700cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 69/81] fix: fillArray hides an element without children as
 documented

---
 lang-javascript.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index a6784ed..91574b7 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -891,10 +891,11 @@ ort_lang_javascript(const struct config *cfg,
 		if (fputs("\t\t{\n"
 		    "\t\t\tconst o = Array.isArray(this.obj) ?\n"
 		    "\t\t\t\tthis.obj : [this.obj];\n"
-		    "\t\t\tif (e === null || e.children.length === 0)\n"
+		    "\t\t\tif (e === null)\n"
 		    "\t\t\t\treturn;\n"
 		    "\t\t\t_hide(e);\n"
-		    "\t\t\tif (o.length === 0 || this.obj === null)\n"
+		    "\t\t\tif (e.children.length === 0 ||\n"
+		    "\t\t\t    o.length === 0 || this.obj === null)\n"
 		    "\t\t\t\treturn;\n"
 		    "\t\t\t_show(e);\n"
 		    "\t\t\tconst row = e.children[0];\n"
-- 
2.43.0


From 7a09513fdbebb2d9e20463e2f671da0e2ce1cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 70/81] fix: index zero of xxx-bits-checked does not match the
 highest bit

---
 ortPrivate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 46a1941..5ea5085 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -840,7 +840,7 @@
 			if (v < 0 || v > 64)
 				continue;
 
-			if ((v === 0 && lval.isZero()) ||
+			if (v === 0 ? lval.isZero() :
 			    !Long.ONE.shl(v - 1).and(lval).isZero()) {
 				inp.setAttribute('checked', 'checked');
 			}
-- 
2.43.0


From 532cb6bc7ba24845f41a0e8bf1318156ee8296ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 71/81] fix: callbacks of ort-javascript are invoked after bits
 and dates are filled

---
 lang-javascript.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index 91574b7..ebd9765 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -313,6 +313,19 @@ gen_js_field(FILE *f, const struct field *fd)
 			return 0;
 	}
 
+	/* These precede _fillField(), which invokes the callbacks. */
+
+	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
+		if (fprintf(f, "\t\t\t_fillBitsChecked"
+		    "(e, '%s-%s', o.%s, inc);\n",
+		    fd->parent->name, fd->name, fd->name) < 0)
+			return 0;
+	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
+		if (fprintf(f, "\t\t\t_fillDateValue"
+		    "(e, '%s-%s', o.%s, inc);\n",
+		    fd->parent->name, fd->name, fd->name) < 0)
+			return 0;
+
 	col = 37;
 	if (fputs("\t\t\t_fillField(e,", f) == EOF)
 		return 0;
@@ -413,18 +426,6 @@ gen_js_field(FILE *f, const struct field *fd)
 	}
 
 	free(buf);
-
-	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
-		if (fprintf(f, "\t\t\t_fillBitsChecked"
-		    "(e, '%s-%s', o.%s, inc);\n",
-		    fd->parent->name, fd->name, fd->name) < 0)
-			return 0;
-	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
-		if (fprintf(f, "\t\t\t_fillDateValue"
-		    "(e, '%s-%s', o.%s, inc);\n",
-		    fd->parent->name, fd->name, fd->name) < 0)
-			return 0;
-
 	return 1;
 }
 
-- 
2.43.0


From 73a5577e8febe3af423d0126c70b396cfc320522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 72/81] fix: years of dates are padded to four digits in
 ort-javascript

---
 ortPrivate.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 5ea5085..c9ac9b7 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -794,7 +794,8 @@
 		const year = d.getFullYear();
 		const mo = d.getMonth() + 1;
 		const day = d.getDate();
-		const full = year + '-' +
+		const full = (year >= 0 && year < 1000 ?
+			('000' + year).slice(-4) : year) + '-' +
 			(mo < 10 ? '0' : '') + mo + '-' +
 			(day < 10 ? '0' : '') + day;
 		_attrcl(e, 'value', fname + '-date-value', full, inc);
-- 
2.43.0


From 15d21aa7c80cf5a0d4e032776ccbfc34dca72928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 73/81] fix: labels of enumerations and bitfields named as a
 local variable

---
 lang-javascript.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index ebd9765..dedbf1c 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -1045,11 +1045,15 @@ ort_lang_javascript(const struct config *cfg,
 		    "\t\t\t}\n\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(bi, &bf->bq, entries) {
+			/*
+			 * Not by its constant: the bitfield may have
+			 * the name of a local variable.
+			 */
 			if (fprintf(f, 
-			    "\t\t\tif (!vlong.and"
-			    "(%s.BITF_%s).isZero()) {\n"
+			    "\t\t\tif (!vlong.and(Long.fromStringZero"
+			    "('%" PRIu64 "')).isZero()) {\n"
 			    "\t\t\t\tconst res = _strlang(", 
-			    bf->name, bi->name) < 0)
+			    UINT64_C(1) << (uint64_t)bi->value) < 0)
 				return 0;
 			if (!gen_labels(f, cfg, &bi->labels))
 				return 0;
@@ -1133,9 +1137,12 @@ ort_lang_javascript(const struct config *cfg,
 		    "\t\t\tswitch(v.toString()) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(ei, &e->eq, entries) {
-			if (fprintf(f, "\t\t\tcase %s.%s:\n"
-			    "\t\t\t\ts = _strlang(",
-			    e->name, ei->name) < 0)
+			/*
+			 * Not by its constant: the enumeration may have
+			 * the name of a local variable.
+			 */
+			if (fprintf(f, "\t\t\tcase '%" PRId64 "':\n"
+			    "\t\t\t\ts = _strlang(", ei->value) < 0)
 				return 0;
 			if (!gen_labels(f, cfg, &ei->labels))
 				return 0;
-- 
2.43.0


From 9d7360f788976ff3ce4e7972e4f70abc448b0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 74/81] fix: structures named as a local variable are filled as
 any other

---
 lang-javascript.c | 63 +++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index dedbf1c..cf5b6bd 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -268,6 +268,8 @@ gen_jsdoc_field(FILE *f, const struct field *fd)
  * Generate calls to _fillField, _fillDateValue, and _fillBitsChecked
  * with properly wrapping lines.
  * Don't generate calls if we don't export the value.
+ * Variables have a leading underscore because the name of the referenced
+ * class would otherwise be hidden if it were the same.
  */
 static int
 gen_js_field(FILE *f, const struct field *fd)
@@ -284,29 +286,29 @@ gen_js_field(FILE *f, const struct field *fd)
 		if (fd->rolemap != NULL)
 			rc = (fd->ref->source->flags & FIELD_NULL) ?
 				asprintf(&buf, 
-					"\t\t\t\ttypeof o.%s === "
+					"\t\t\t\ttypeof _o.%s === "
 					  "\'undefined\' ? undefined :\n"
-					"\t\t\t\to.%s === null ? null :\n"
-					"\t\t\t\tnew %s(o.%s)", 
+					"\t\t\t\t_o.%s === null ? null :\n"
+					"\t\t\t\tnew %s(_o.%s)", 
 					fd->name, fd->name,
 					fd->ref->target->parent->name, 
 					fd->name) :
 				asprintf(&buf, 
-					"\t\t\t\ttypeof o.%s === "
+					"\t\t\t\ttypeof _o.%s === "
 					  "\'undefined\' ?\n"
-					"\t\t\t\tundefined : new %s(o.%s)", 
+					"\t\t\t\tundefined : new %s(_o.%s)", 
 					fd->name,
 					fd->ref->target->parent->name, 
 					fd->name);
 		else
 			rc = (fd->ref->source->flags & FIELD_NULL) ?
 				asprintf(&buf, 
-					"\t\t\t\to.%s === null ? null :\n"
-					"\t\t\t\tnew %s(o.%s)", 
+					"\t\t\t\t_o.%s === null ? null :\n"
+					"\t\t\t\tnew %s(_o.%s)", 
 					fd->name,
 					fd->ref->target->parent->name, 
 					fd->name) :
-				asprintf(&buf, "\t\t\t\tnew %s(o.%s)", 
+				asprintf(&buf, "\t\t\t\tnew %s(_o.%s)", 
 					fd->ref->target->parent->name, 
 					fd->name);
 		if (rc == -1)
@@ -317,17 +319,17 @@ gen_js_field(FILE *f, const struct field *fd)
 
 	if (fd->type == FTYPE_BIT || fd->type == FTYPE_BITFIELD)
 		if (fprintf(f, "\t\t\t_fillBitsChecked"
-		    "(e, '%s-%s', o.%s, inc);\n",
+		    "(_e, '%s-%s', _o.%s, _inc);\n",
 		    fd->parent->name, fd->name, fd->name) < 0)
 			return 0;
 	if (fd->type == FTYPE_DATE || fd->type == FTYPE_EPOCH)
 		if (fprintf(f, "\t\t\t_fillDateValue"
-		    "(e, '%s-%s', o.%s, inc);\n",
+		    "(_e, '%s-%s', _o.%s, _inc);\n",
 		    fd->parent->name, fd->name, fd->name) < 0)
 			return 0;
 
-	col = 37;
-	if (fputs("\t\t\t_fillField(e,", f) == EOF)
+	col = 38;
+	if (fputs("\t\t\t_fillField(_e,", f) == EOF)
 		return 0;
 
 	/* Structure name. */
@@ -364,7 +366,7 @@ gen_js_field(FILE *f, const struct field *fd)
 
 	/* "Custom." */
 
-	if (col + 7 >= 72) {
+	if (col + 8 >= 72) {
 		if (fputs("\n\t\t\t\t", f) == EOF)
 			return 0;
 		col = 32;
@@ -374,13 +376,13 @@ gen_js_field(FILE *f, const struct field *fd)
 		col++;
 	}
 
-	if ((rc = fprintf(f, "custom,")) < 0)
+	if ((rc = fprintf(f, "_custom,")) < 0)
 		return 0;
 	col += (size_t)rc;
 
 	/* Field in interface and "inc". */
 
-	if (col + 7 + strlen(fd->name) >= 72) {
+	if (col + 9 + strlen(fd->name) >= 72) {
 		if (fputs("\n\t\t\t\t", f) == EOF)
 			return 0;
 		col = 32;
@@ -390,7 +392,7 @@ gen_js_field(FILE *f, const struct field *fd)
 		col++;
 	}
 
-	if ((rc = fprintf(f, "o.%s, inc,", fd->name)) < 0)
+	if ((rc = fprintf(f, "_o.%s, _inc,", fd->name)) < 0)
 		return 0;
 	col += (size_t)rc;
 
@@ -764,28 +766,29 @@ ort_lang_javascript(const struct config *cfg,
 		/* _fill() private method. */
 
 		if (!gen_class_proto(f, 1, "void", "_fill",
-		    "e", "HTMLElement", 
-		    "obj", obj,
-		    "inc", "boolean",
-		    "custom?", "DataCallbacks|null", NULL))
+		    "_e", "HTMLElement", 
+		    "_obj", obj,
+		    "_inc", "boolean",
+		    "_custom?", "DataCallbacks|null", NULL))
 			return 0;
 		if (fputs("\t\t{\n"
-		    "\t\t\tif (Array.isArray(obj) && obj.length === 0)\n"
+		    "\t\t\tif (Array.isArray(_obj) && _obj.length === 0)\n"
 		    "\t\t\t\treturn;\n"
-		    "\t\t\tconst o = Array.isArray(obj) ? obj[0] : obj;\n"
-		    "\t\t\tif (typeof(custom) === 'undefined')\n"
-		    "\t\t\t\tcustom = null;\n", f) == EOF)
+		    "\t\t\tconst _o = Array.isArray(_obj) ?\n"
+		    "\t\t\t\t_obj[0] : _obj;\n"
+		    "\t\t\tif (typeof(_custom) === 'undefined')\n"
+		    "\t\t\t\t_custom = null;\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(fd, &s->fq, entries)
 			if (!gen_js_field(f, fd))
 				return 0;
-		if (fprintf(f, "\t\t\tif (custom !== null &&\n"
-		    "\t\t\t    typeof(custom[\'%s\']) !== 'undefined') {\n"
-		    "\t\t\t\tif (Array.isArray(custom['%s'])) {\n"
-		    "\t\t\t\t\tfor (const fn of custom['%s'])\n"
-		    "\t\t\t\t\t\tfn(e, '%s', o);\n"
+		if (fprintf(f, "\t\t\tif (_custom !== null &&\n"
+		    "\t\t\t    typeof(_custom[\'%s\']) !== 'undefined') {\n"
+		    "\t\t\t\tif (Array.isArray(_custom['%s'])) {\n"
+		    "\t\t\t\t\tfor (const fn of _custom['%s'])\n"
+		    "\t\t\t\t\t\tfn(_e, '%s', _o);\n"
 		    "\t\t\t\t} else\n"
-		    "\t\t\t\t\tcustom['%s'](e, '%s', o);\n"
+		    "\t\t\t\t\t_custom['%s'](_e, '%s', _o);\n"
 		    "\t\t\t}\n"
 		    "\t\t}\n"
 		    "\n", s->name, s->name, s->name, s->name, s->name,
-- 
2.43.0


From b70b0538cce18d62dbdc341341fd4fe680b91955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 75/81] fix: nodejs operations permitted to no role have no
 type errors

---
 lang-nodejs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 393feba..0feefcb 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -207,8 +207,13 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 			return -1;
 	}
 
+	/*
+	 * If no role is allowed, what follows must not be considered
+	 * unreachable, else TypeScript gives its variables type "never".
+	 */
+
 	return fputs("\t\tdefault:\n"
-	     "\t\t\tprocess.abort();\n"
+	     "\t\t\t(process.abort as () => void)();\n"
 	     "\t\t}\n", f) != EOF;
 }
 
-- 
2.43.0


From 5bcdef311ccad5b3f0b3c711063ff38329ed74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 76/81] fix: exceptions caught in nodejs code have a type

---
 lang-nodejs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 0feefcb..a90a60b 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -556,7 +556,7 @@ gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 	return fputs("\n"
 	     "\t\ttry {\n"
 	     "\t\t\tinfo = stmt.run(parms);\n"
-	     "\t\t} catch (er) {\n"
+	     "\t\t} catch (er: any) {\n"
 	     "\t\t\tif (String(er.code).startsWith"
 	     "('SQLITE_CONSTRAINT'))\n"
 	     "\t\t\t\treturn BigInt(-1);\n"
@@ -851,7 +851,7 @@ gen_update(FILE *f, const struct config *cfg,
 		if (fputs("\n"
 		    "\t\ttry {\n"
 		    "\t\t\tinfo = stmt.run(parms);\n"
-		    "\t\t} catch (er) {\n"
+		    "\t\t} catch (er: any) {\n"
 		    "\t\t\tif (String(er.code).startsWith"
 		    "('SQLITE_CONSTRAINT'))\n"
 		    "\t\t\t\treturn false;\n"
-- 
2.43.0


From 39b6d34a1127d4c1a162d0e2cdbf5c04ea0fcd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 77/81] fix: contradictory limits of reals are no type errors
 in nodejs code

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index a90a60b..20e91ac 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1690,7 +1690,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
-			if (fprintf(f, "\t\t\tif (!(nv %s ",
+			if (fprintf(f, "\t\t\tif (!(<number>nv %s ",
 			    vtypes[fv->type]) < 0 ||
 			    ort_print_real(f, fv->d.value.decimal) < 0 ||
 			    fputs("))\n\t\t\t\treturn null;\n", f) == EOF)
-- 
2.43.0


From 2485040899a8e184a8904234805f1bef3b6c7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 78/81] fix: star-slash in comments does not end the comment of
 generated code

---
 lang.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lang.c b/lang.c
index e4b2137..249012b 100644
--- a/lang.c
+++ b/lang.c
@@ -128,8 +128,8 @@ gen_enum_unique(FILE *f, int defn, const struct field *fd,
  * Generate a (possibly) multi-line comment with "tabs" number of
  * preceding tab spaces.
  * This uses the standard comment syntax as seen in this comment itself.
- * FIXME: make sure that text we're ommitting doesn't clobber the
- * comment epilogue, like having star-slash in the text of a C comment.
+ * If within such a comment, a star-slash in the text has a backslash put
+ * between, as it would otherwise end the comment.
  */
 static int
 print_comment(FILE *f, const char *doc, size_t tabs, 
@@ -218,6 +218,9 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 				}
 			}
 
+			if (last == '*' && *cp == '/' && *in == ' ' &&
+			    fputc('\\', f) == EOF)
+				return 0;
 			if (fputc(*cp, f) == EOF)
 				return 0;
 			last = *cp;
@@ -261,13 +264,13 @@ gen_comment(FILE *f, size_t tabs, enum cmtt type, const char *cp)
 
 	/*
 	 * If we're a C comment and are sufficiently small, then print
-	 * us on a one-line comment block.
-	 * FIXME: make sure the comment doesn't have the end-of-comment
-	 * marker itself.
+	 * us on a one-line comment block, unless it has something to
+	 * escape (see print_comment()).
 	 */
 
 	if (type == COMMENT_C && cp != NULL && tabs >= 1 && 
-	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol) {
+	    strchr(cp, '\n') == NULL && strstr(cp, "*/") == NULL &&
+	    strlen(cp) < maxcol) {
 		for (i = 0; i < tabs; i++) 
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From a7db264015c1db1809b348b8a1d38a74921acb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 79/81] fix: structures and enumerations in C may be named stmt

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 1a06346..5ed6c56 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -3044,7 +3044,7 @@ ort_lang_c_source(const struct ort_lang_c *args,
 		    "All SQL statements we'll later "
 		    "define in \"stmts\"."))
 			return 0;
-		if (fputs("enum\tstmt {\n", f) == EOF)
+		if (fputs("enum\tort_stmt {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(p, &cfg->sq, entries)
 			if (!gen_sql_enums(f, 1, p, LANG_C))
-- 
2.43.0


From 0c1b1cb893a32a42d2d664909fa152d3aa8cda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 80/81] fix: count distinct or limited rows by way of a nested
 query

---
 lang.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lang.c b/lang.c
index 249012b..b1a4b6b 100644
--- a/lang.c
+++ b/lang.c
@@ -512,7 +512,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 	const struct update	*up;
 	const struct uref	*ur;
 	const struct ord	*ord;
-	int			 first, hastrail, needquot, rc;
+	int			 first, hastrail, needquot, nested, rc;
 	size_t			 pos, nc, col, ntabs;
 	char			 delim;
 	const char		*spacer;
@@ -621,12 +621,21 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		/* 
 		 * Juggle around the possibilities of...
 		 *   select count(*)
-		 *   select count(distinct --gen_sql_stmt_schema--)
+		 *   select count(*) from (select distinct
+		 *     --gen_sql_stmt_schema--)
+		 *   select count(*) from (select 1)
 		 *   select --gen_sql_stmt_schema--
+		 * The nested ones are for counting the rows of what's
+		 * distinct or limited.
 		 */
 
+		nested = s->type == STYPE_COUNT && (s->dst != NULL ||
+			s->limit > 0 || s->offset > 0);
+
 		if (s->type == STYPE_COUNT) {
-			if ((rc = fprintf(f, "COUNT(")) < 0)
+			rc = fprintf(f, "COUNT(*)%s", 
+				nested ? " FROM (SELECT " : "");
+			if (rc < 0)
 				return 0;
 			col += (size_t)rc;
 		}
@@ -645,14 +654,11 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			    p, 1, p, NULL, &col))
 				return 0;
 			needquot = 1;
-		} else
-			if (fputc('*', f) == EOF)
-				return 0;
+		} else if (nested && fputc('1', f) == EOF)
+			return 0;
 
 		if (needquot && fprintf(f, "%s%c", spacer, delim) < 0)
 			return 0;
-		if (s->type == STYPE_COUNT && fputc(')', f) == EOF)
-			return 0;
 		if (fprintf(f, " FROM %s", p->name) < 0)
 			return 0;
 
@@ -667,7 +673,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0);
+			(s->type != STYPE_SEARCH && s->offset > 0) ||
+			nested;
 		
 		nc = 0;
 		if (!gen_sql_stmt_join
@@ -801,6 +808,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
+		if (nested && fputc(')', f) == EOF)
+			return 0;
 		if (fputc(delim, f) == EOF)
 			return 0;
 		if (lang == LANG_RUST && fputs("; }", f) == EOF)
-- 
2.43.0


From 62a998c5c8d85c19e56f71f54b215438dce3dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 81/81] fix: offsets of queries without a limit and of
 single-row searches

---
 lang.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lang.c b/lang.c
index b1a4b6b..c673cc9 100644
--- a/lang.c
+++ b/lang.c
@@ -673,7 +673,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0) ||
+			(s->offset > 0) ||
 			nested;
 		
 		nc = 0;
@@ -802,10 +802,14 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 		}
 
-		if (STYPE_SEARCH != s->type && s->limit > 0 &&
-		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+		/* An offset may not be without a limit. */
+
+		if (((STYPE_SEARCH != s->type && s->limit > 0) ||
+		     s->offset > 0) &&
+		    fprintf(f, " LIMIT %" PRId64, 
+		    s->limit > 0 ? s->limit : -1) < 0)
 			return 0;
-		if (STYPE_SEARCH != s->type && s->offset > 0 &&
+		if (s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
 		if (nested && fputc(')', f) == EOF)
-- 
2.43.0

