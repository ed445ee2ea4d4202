From a0d5d06f0210bb6522e1d35ea922eb312d539f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:48 +0000
Subject: [PATCH 01/44] fix: keep the case of quoted names when resolving
 Postgres tables and columns

Identifiers were lower-cased where tables and aliases are collected but not
where columns refer to them, so a query using a quoted mixed-case table or
alias ended with "no table found". The lexer already folds unquoted names.
---
 .../postgres/pservice/parser/collect_stmt_scopes.go  | 12 ++++++------
 .../postgres/pservice/parser/collect_table_names.go  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..c214a0d 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -455,7 +455,7 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 		if sc.isSchemaSpecified2(e.TableName, 1) {
 			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 		} else {
-			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: e.ColumnName.Normalize()}}
+			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: string(e.ColumnName)}}
 		}
 	default:
 		t := reflect.TypeOf(e).Name()
@@ -495,7 +495,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 
 			// ignore the content of subquery as it will be in different ScopeStmt
 			tables = []*dparser.Table{{
-				AsName:    t.As.Alias.Normalize(),
+				AsName:    string(t.As.Alias),
 				Name:      name,
 				IsLateral: t.Lateral,
 			}}
@@ -503,7 +503,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecified2(tt, 1) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Parts[0]}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Parts[0]}}
 			}
 		case *tree.StatementSource:
 			sc.lastError = lib.NewUnsupportedError("referencing source like [table] is not supported")
@@ -522,7 +522,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecifiedTableName(tt) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Table()}}
 			}
 		case *tree.TableRef:
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
@@ -569,7 +569,7 @@ func (sc *scopeCollector) collectJoinReferences(j *tree.JoinTableExpr) ([]*dpars
 		case *tree.UsingJoinCond:
 			// todo: not supporting the same column name?
 			for _, col := range c.Cols {
-				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: col.Normalize(), Type: dparser.FieldCondition}}})
+				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: string(col), Type: dparser.FieldCondition}}})
 			}
 		default:
 			sc.lastError = lib.NewUnsupportedError(
@@ -647,7 +647,7 @@ func (sc *scopeCollector) isSchemaSpecifiedTableName(tt *tree.TableName) bool {
 		return true
 	}
 
-	sName := tt.SchemaName.Normalize()
+	sName := string(tt.SchemaName)
 	if sName == "" || sName == sc.targetSchema {
 		return false
 	}
diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 2c12da1..f471d11 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -40,7 +40,7 @@ func CollectTableNames(stmt *parser.Statement) ([]string, []error) {
 func (tc *tableCollector) getTableNames() []string {
 	s := lib.NewSet[string]()
 	for _, t := range tc.tables {
-		s.Add(t.name.Normalize())
+		s.Add(string(t.name))
 	}
 
 	return s.Values()
@@ -74,7 +74,7 @@ func (tc *tableCollector) pushCteTables(s *tree.Select) {
 
 	var ts []string
 	for _, cte := range s.With.CTEList {
-		ts = append(ts, cte.Name.Alias.Normalize())
+		ts = append(ts, string(cte.Name.Alias))
 	}
 	tc.cteTables = append(tc.cteTables, ts)
 }
@@ -105,7 +105,7 @@ func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.Tab
 		))
 		return
 	}
-	if !tc.isCteTable(tName.TableName.Normalize()) {
+	if !tc.isCteTable(string(tName.TableName)) {
 		tc.tables = append(tc.tables, &table{
 			name:  tName.TableName,
 			alias: asName,
-- 
2.43.0


From 9e9ec64f1ab2688d9de9ed72b70f5cb561b683ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:40 +0000
Subject: [PATCH 02/44] fix: resolve columns found in several tables in a fixed
 order

An unqualified column (ORDER BY an output column, USING, "*" of a join) was
looked up by iterating a map, so the suggested indexes changed from run to run.
---
 .../dservice/dparser/build_table_fields.go    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..13f5c7c 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -4,11 +4,19 @@ import (
 	"fmt"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
+	"sort"
 )
 
 type tableOutputCols map[string][]*outputCol
 type tableFieldColumns map[string][]*FieldColumn
 
+// sortedTableNames returns names in a fixed order so that the same query always refers to the same column
+func (c tableOutputCols) sortedTableNames() []string {
+	names := lo.Keys(c)
+	sort.Strings(names)
+	return names
+}
+
 type outputCol struct {
 	name               string
 	referencingColumns []*columnInfo
@@ -212,10 +220,12 @@ func (si *scopeInfo) addReferencingField(tableName string, col *FieldColumn) {
 
 func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputCol, error) {
 	var res []*outputCol
-	for _, tName := range si.starTables.Values() {
+	starTables := si.starTables.Values()
+	sort.Strings(starTables)
+	for _, tName := range starTables {
 		if tName == "" {
-			for _, cols := range si.refTables.internalCols {
-				res = append(res, cols...)
+			for _, name := range si.refTables.internalCols.sortedTableNames() {
+				res = append(res, si.refTables.internalCols[name]...)
 			}
 			continue
 		}
@@ -332,8 +342,8 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 }
 
 func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCols, colName string) ([]*columnInfo, bool) {
-	for _, fCols := range tableOutputs {
-		for _, fc := range fCols {
+	for _, tName := range tableOutputs.sortedTableNames() {
+		for _, fc := range tableOutputs[tName] {
 			if colName == fc.name {
 				return fc.referencingColumns, true
 			}
-- 
2.43.0


From 83d41a39addc0e92db764e04e063d31177f7c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:50 +0000
Subject: [PATCH 03/44] fix: keep all tables of a comma-separated FROM clause

Only the last item of "FROM a, b" was kept, so columns of the others were
reported as unknown.
---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index c214a0d..307df08 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From b6e67825fb7577ebe2622490e1d4fb1522c88e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:50 +0000
Subject: [PATCH 04/44] fix: refuse queries other than one SELECT before
 running EXPLAIN ANALYZE

EXPLAIN ANALYZE executes its statement. The query was checked only after it
had been executed, only its first statement was looked at (MySQL), and an
empty query ended with a panic.
---
 cmd/db/suggest/mysql.go             |  6 ++++++
 cmd/db/suggest/postgres.go          |  6 ++++++
 database/mysql/mservice/parse.go    | 26 ++++++++++++++++++++++++++
 database/postgres/pservice/parse.go | 19 +++++++++++++++++++
 4 files changed, 57 insertions(+)

diff --git a/cmd/db/suggest/mysql.go b/cmd/db/suggest/mysql.go
index a128264..2a8c708 100644
--- a/cmd/db/suggest/mysql.go
+++ b/cmd/db/suggest/mysql.go
@@ -64,6 +64,12 @@ func (mr *mysqlRunner) suggest(outputPath string, db *mysql.DB, dbName string) e
 		return err
 	}
 
+	// EXPLAIN ANALYZE executes query. Don't let it change data.
+	err = mservice.ValidateReadQuery(mr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
 	if err != nil {
 		return err
diff --git a/cmd/db/suggest/postgres.go b/cmd/db/suggest/postgres.go
index 54a7b78..13d2bc4 100644
--- a/cmd/db/suggest/postgres.go
+++ b/cmd/db/suggest/postgres.go
@@ -64,6 +64,12 @@ func (pr *postgresRunner) suggest(outputPath string, db *postgres.DB, schema str
 		return err
 	}
 
+	// EXPLAIN ANALYZE executes query. Don't let it change data.
+	err = pservice.ValidateReadQuery(pr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := pservice.NewExplainer(db).ExplainWithAnalyze(pr.query)
 	if err != nil {
 		return err
diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 82b8d4a..066af00 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -1,8 +1,11 @@
 package mservice
 
 import (
+	mParser "github.com/mrasu/GravityR/database/mysql/mservice/parser"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
+	"github.com/pkg/errors"
 )
 
 func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
@@ -11,5 +14,28 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 		return nil, err
 	}
 
+	if len(stmtNodes) != 1 {
+		return nil, errors.Errorf("only a query having one statement is supported. found %d", len(stmtNodes))
+	}
+
 	return stmtNodes[0], nil
 }
+
+// ValidateReadQuery returns an error unless query is one SELECT statement, which is safe to execute to measure.
+func ValidateReadQuery(query string) error {
+	stmt, err := Parse(parser.New(), query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := mParser.CollectTableNames(stmt)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	if s, ok := stmt.(*ast.SelectStmt); ok && s.SelectIntoOpt != nil {
+		return lib.NewUnsupportedError("not supporting SELECT having INTO")
+	}
+
+	return nil
+}
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 5018253..29ab30a 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -2,6 +2,7 @@ package pservice
 
 import (
 	"github.com/auxten/postgresql-parser/pkg/sql/parser"
+	pParser "github.com/mrasu/GravityR/database/postgres/pservice/parser"
 	"github.com/pkg/errors"
 )
 
@@ -14,5 +15,23 @@ func Parse(query string) (*parser.Statement, error) {
 	if len(stmts) > 1 {
 		return nil, errors.New("not supporting query having multiple statements")
 	}
+	if len(stmts) == 0 {
+		return nil, errors.New("query has no statement")
+	}
 	return &stmts[0], nil
 }
+
+// ValidateReadQuery returns an error unless query is one SELECT statement, which is safe to execute to measure.
+func ValidateReadQuery(query string) error {
+	stmt, err := Parse(query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := pParser.CollectTableNames(stmt)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
-- 
2.43.0


From 6fafc7e083ca1f1bc86329b5180c53a5297fc8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:36 +0000
Subject: [PATCH 05/44] fix: don't look up existing indexes when there is
 nothing to suggest

The lookup was sent with an empty IN list, so a query needing no index ended
with an error instead of a report.
---
 database/dservice/existing_index_remover.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..3db3465 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -24,6 +24,10 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 }
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
+	if len(r.idxTargets) == 0 {
+		return nil, nil
+	}
+
 	idxTargets := lo.Uniq(r.idxTargets)
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
-- 
2.43.0


From 910058a031768b452a7c2d9ba92b74faa0ab6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:47 +0000
Subject: [PATCH 06/44] fix: accept MySQL functional indexes when listing
 existing indexes

STATISTICS.COLUMN_NAME is NULL for a functional key part, which made the
whole command fail.
---
 infra/mysql/index_info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/infra/mysql/index_info.go b/infra/mysql/index_info.go
index 14c4b46..e72e1fd 100644
--- a/infra/mysql/index_info.go
+++ b/infra/mysql/index_info.go
@@ -1,5 +1,7 @@
 package mysql
 
+import "database/sql"
+
 const indexFetchQuery = `
 SELECT
 	TABLE_NAME,
@@ -20,9 +22,10 @@ type IndexInfo struct {
 }
 
 type flatIndexInfo struct {
-	TableName  string `db:"TABLE_NAME"`
-	IndexName  string `db:"INDEX_NAME"`
-	ColumnName string `db:"COLUMN_NAME"`
+	TableName string `db:"TABLE_NAME"`
+	IndexName string `db:"INDEX_NAME"`
+	// ColumnName is NULL for a functional key part
+	ColumnName sql.NullString `db:"COLUMN_NAME"`
 }
 
 func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
@@ -33,11 +36,11 @@ func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
 	for _, flatInfo := range orderedFlatInfo {
 		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
 			idx := infos[len(infos)-1]
-			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
+			idx.Columns = append(idx.Columns, flatInfo.ColumnName.String)
 		} else {
 			infos = append(infos, &IndexInfo{
 				TableName: flatInfo.TableName,
-				Columns:   []string{flatInfo.ColumnName},
+				Columns:   []string{flatInfo.ColumnName.String},
 			})
 		}
 
-- 
2.43.0


From 63e4386818ff72cb9c7481b69d38697433b6452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:58 +0000
Subject: [PATCH 07/44] fix: match the whole text of --index

The pattern wasn't anchored, so a text having newlines was cut silently and
the examination ran for another index than the given one.
---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..6b42436 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -15,7 +15,7 @@ type IndexTarget struct {
 	Columns   []*IndexColumn
 }
 
-var indexTargetReg = regexp.MustCompile(`(.+?):((.+?(\+)?)+)`)
+var indexTargetReg = regexp.MustCompile(`(?s)\A(.+?):((.+?(\+)?)+)\z`)
 var wordOnlyReg = regexp.MustCompile(`\A\w+\z`)
 
 const indexTargetColumnSeparator = "+"
-- 
2.43.0


From f3441e988a44de5c665c617cec822c7785570792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:49 +0000
Subject: [PATCH 08/44] fix: keep the last node of a plan having no summary
 lines

Without "Planning Time:" etc. (e.g. Hasura's explain) the last node of the
plan was dropped.
---
 database/postgres/pservice/explain_analyze_tree_builder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..baf4abb 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -75,9 +75,6 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	summaryStartLine := 0
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -119,6 +116,10 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		}
 	}
 
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
+	}
+
 	sLine := ""
 	if summaryStartLine > 0 {
 		sLine = strings.Join(explainLines[summaryStartLine:], "\n")
-- 
2.43.0


From 7f6aa89c8dfa1110071fd48b4495c51cce949433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:10 +0000
Subject: [PATCH 09/44] fix: treat GraphQL errors from Hasura as failures of
 the query

GraphQL errors come with status 200, so the time of a failed query was
reported as the effect of an index.
---
 infra/hasura/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..2c1d190 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,22 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// GraphQL reports errors with status 200
+	gres := &struct {
+		Errors []json.RawMessage `json:"errors"`
+	}{}
+	err = json.Unmarshal(res, gres)
+	if err != nil {
+		return errors.Wrap(err, "failed to decode response from Hasura")
+	}
+	if len(gres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", string(gres.Errors[0]))
+	}
 	return nil
 }
 
-- 
2.43.0


From f9030637fce98bb5ac638bf6f6d9b991aa77d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:21 +0000
Subject: [PATCH 10/44] fix: close the report and report errors of closing it

A write error which the OS reports at close (quota, NFS) was lost, so the
command succeeded with a broken report.
---
 html/html_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/html/html_builder.go b/html/html_builder.go
index 1ed1c41..26bce5b 100644
--- a/html/html_builder.go
+++ b/html/html_builder.go
@@ -58,8 +58,14 @@ func CreateHtml(htmlType, filename string, bo *BuildOption) error {
 
 	err = tpl.Execute(f, m)
 	if err != nil {
+		_ = f.Close()
 		return errors.Wrap(err, "failed to write template to html")
 	}
 
+	err = f.Close()
+	if err != nil {
+		return errors.Wrap(err, "failed to close html file")
+	}
+
 	return nil
 }
-- 
2.43.0


From 7a92bcd14e339dd7766ba859f431150280acb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 11/44] fix: escape values of the Postgres connection string

A password (or user, database) having ' or \\ broke the connection string, or
added other connection parameters to it.
---
 infra/postgres/config.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..eb5953e 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -47,19 +47,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, "user="+quoteConnectionValue(cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, "password="+quoteConnectionValue(cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, "host="+quoteConnectionValue(cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, "port="+quoteConnectionValue(cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, "dbname="+quoteConnectionValue(cfg.DBName))
 	}
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
@@ -69,6 +69,12 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+var connectionValueEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`)
+
+func quoteConnectionValue(v string) string {
+	return "'" + connectionValueEscaper.Replace(v) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From c0c82165a9b73f3d356b8ab9c18c48170ef90a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 12/44] fix: connect to MySQL with the configured user and
 database as they are

A DSN cannot express a user having ":" or a database having "/" or "?", so
another user or database was used.
---
 infra/mysql/config.go | 14 ++++++++++++++
 infra/mysql/db.go     | 10 +++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/infra/mysql/config.go b/infra/mysql/config.go
index 94c4656..c7c6cab 100644
--- a/infra/mysql/config.go
+++ b/infra/mysql/config.go
@@ -54,6 +54,20 @@ func (cfg *Config) ToDSN() string {
 	return dsn
 }
 
+// toDriverConfig returns config for the driver without putting names in DSN, as DSN cannot express all of them.
+func (cfg *Config) toDriverConfig() (*mysql.Config, error) {
+	base := cfg.config.Clone()
+	base.User, base.Passwd, base.DBName = "", "", ""
+
+	c, err := mysql.ParseDSN((&Config{config: base, paramText: cfg.paramText}).ToDSN())
+	if err != nil {
+		return nil, err
+	}
+	c.User, c.Passwd, c.DBName = cfg.config.User, cfg.config.Passwd, cfg.config.DBName
+
+	return c, nil
+}
+
 func (cfg *Config) GetDBName() string {
 	return cfg.config.DBName
 }
diff --git a/infra/mysql/db.go b/infra/mysql/db.go
index 23779a4..702d1fa 100644
--- a/infra/mysql/db.go
+++ b/infra/mysql/db.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"github.com/go-sql-driver/mysql"
 	"github.com/jmoiron/sqlx"
 	"github.com/pkg/errors"
 	"time"
@@ -13,12 +14,15 @@ type DB struct {
 }
 
 func OpenMySQLDB(cfg *Config) (*DB, error) {
-	dsn := cfg.ToDSN()
-
-	db, err := sqlx.Open("mysql", dsn)
+	driverCfg, err := cfg.toDriverConfig()
+	if err != nil {
+		return nil, errors.Wrap(err, "failed to connect")
+	}
+	connector, err := mysql.NewConnector(driverCfg)
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to connect")
 	}
+	db := sqlx.NewDb(sql.OpenDB(connector), "mysql")
 
 	db.SetConnMaxLifetime(time.Minute * 3)
 	db.SetMaxOpenConns(10)
-- 
2.43.0


From 989a968c5c7bcca63aede8d579624a1c8529b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:14 +0000
Subject: [PATCH 13/44] fix: recognize existing Postgres indexes on quoted
 columns

PG_GET_INDEXDEF quotes names like "order" or "userId", so an index existing
on such a column was suggested again.
---
 infra/hasura/index_info.go   |  3 ++-
 infra/postgres/index_info.go |  3 ++-
 lib/unquote_identifier.go    | 12 ++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)
 create mode 100644 lib/unquote_identifier.go

diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..f1583be 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -5,6 +5,7 @@ import (
 	"github.com/lib/pq"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
+	"github.com/samber/lo"
 	"strings"
 )
 
@@ -65,7 +66,7 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 
 		infos = append(infos, &IndexInfo{
 			TableName: r[0],
-			Columns:   cols,
+			Columns:   lo.Map(cols, func(c string, _ int) string { return lib.UnquoteIdentifier(c) }),
 		})
 	}
 
diff --git a/infra/postgres/index_info.go b/infra/postgres/index_info.go
index 4e5bd32..72f0f10 100644
--- a/infra/postgres/index_info.go
+++ b/infra/postgres/index_info.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"github.com/lib/pq"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
 )
 
@@ -41,7 +42,7 @@ func toIndexInfo(queryInfos []*queryIndexInfo) []*IndexInfo {
 	return lo.Map(queryInfos, func(qi *queryIndexInfo, _ int) *IndexInfo {
 		return &IndexInfo{
 			TableName: qi.TableName,
-			Columns:   qi.ColumnNames,
+			Columns:   lo.Map(qi.ColumnNames, func(c string, _ int) string { return lib.UnquoteIdentifier(c) }),
 		}
 	})
 }
diff --git a/lib/unquote_identifier.go b/lib/unquote_identifier.go
new file mode 100644
index 0000000..32ff3f1
--- /dev/null
+++ b/lib/unquote_identifier.go
@@ -0,0 +1,12 @@
+package lib
+
+import "strings"
+
+// UnquoteIdentifier returns the name itself from an identifier PostgreSQL may have quoted (e.g. "Order" -> Order).
+func UnquoteIdentifier(ident string) string {
+	if len(ident) < 2 || !strings.HasPrefix(ident, `"`) || !strings.HasSuffix(ident, `"`) {
+		return ident
+	}
+
+	return strings.ReplaceAll(ident[1:len(ident)-1], `""`, `"`)
+}
-- 
2.43.0


From 0c4187b22235511f38acce7f6519ee516aa27e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:22 +0000
Subject: [PATCH 14/44] fix: report a Jaeger trace once when it is found in
 several time ranges

---
 otel/jaeger/trace_fetcher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/trace_fetcher.go b/otel/jaeger/trace_fetcher.go
index aa1428f..21dfebf 100644
--- a/otel/jaeger/trace_fetcher.go
+++ b/otel/jaeger/trace_fetcher.go
@@ -22,6 +22,8 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 	interval := 30 * time.Minute
 
 	var res []*omodel.TraceTree
+	// a trace belongs to several ranges when it has spans in them or at their border
+	found := map[string]bool{}
 	times := lib.GenerateTimeRanges(start, end, interval)
 	for _, start := range times {
 		param := &api_v3.TraceQueryParameters{
@@ -37,7 +39,14 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 		if err != nil {
 			return nil, err
 		}
-		res = append(res, trees...)
+		for _, tree := range trees {
+			key := string(tree.Root.TraceId) + "/" + string(tree.Root.SpanId)
+			if found[key] {
+				continue
+			}
+			found[key] = true
+			res = append(res, tree)
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 447e387863a127b66e2eccdae0aa193c7832fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:57 +0000
Subject: [PATCH 15/44] fix: don't count time after a span's end as its
 consumed time

---
 otel/omodel/span.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..bbc1fc0 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -77,6 +77,10 @@ func (s *Span) CalcConsumedTime() uint64 {
 	consumedTime := uint64(0)
 	lastEndTime := s.StartTimeUnixNano
 	for _, t := range childTimes {
+		// a child can start or end after its parent's end (e.g. asynchronous calls)
+		if s.EndTimeUnixNano <= t[0] {
+			break
+		}
 		if lastEndTime < t[0] {
 			consumedTime += t[0] - lastEndTime
 		}
@@ -84,7 +88,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 			lastEndTime = t[1]
 		}
 	}
-	consumedTime += s.EndTimeUnixNano - lastEndTime
+	if lastEndTime < s.EndTimeUnixNano {
+		consumedTime += s.EndTimeUnixNano - lastEndTime
+	}
 
 	return consumedTime
 }
-- 
2.43.0


From a55d2566541f2a50de5312bd7a4e7fea03e9595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:07 +0000
Subject: [PATCH 16/44] fix: make trees of traces independent of the order of
 spans

---
 otel/jaeger/v1_converter.go                 |  2 ++
 otel/omodel/compact_info_collect_visitor.go |  2 +-
 otel/omodel/span.go                         | 18 +++++++++++++++---
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..e67d3f6 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -47,6 +47,8 @@ func (c *v1Converter) toTraceTrees(resourceSpans []*v1Trace.ResourceSpans) []*om
 		}
 	}
 
+	omodel.SortSpans(roots)
+
 	return lo.Map(roots, func(root *omodel.Span, _ int) *omodel.TraceTree {
 		root.SortChildren()
 		return omodel.NewTraceTree(root)
diff --git a/otel/omodel/compact_info_collect_visitor.go b/otel/omodel/compact_info_collect_visitor.go
index 80f1259..56120c9 100644
--- a/otel/omodel/compact_info_collect_visitor.go
+++ b/otel/omodel/compact_info_collect_visitor.go
@@ -23,7 +23,7 @@ func (v *traceInfoCollectVisitor) GetMostTimeConsumedService() string {
 	maxTime := uint64(0)
 
 	for s, t := range v.serviceConsumedTime {
-		if maxTime < t {
+		if maxTime < t || (maxTime == t && t > 0 && s < maxService) {
 			maxService = s
 			maxTime = t
 		}
diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index bbc1fc0..03169e9 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -23,15 +23,27 @@ type Span struct {
 }
 
 func (s *Span) SortChildren() {
-	sort.Slice(s.Children, func(i, j int) bool {
-		return s.Children[i].StartTimeUnixNano < s.Children[j].StartTimeUnixNano
-	})
+	SortSpans(s.Children)
 
 	for _, c := range s.Children {
 		c.SortChildren()
 	}
 }
 
+func (s *Span) startsBefore(other *Span) bool {
+	if s.StartTimeUnixNano != other.StartTimeUnixNano {
+		return s.StartTimeUnixNano < other.StartTimeUnixNano
+	}
+	return bytes.Compare(s.SpanId, other.SpanId) < 0
+}
+
+// SortSpans sorts by start time, and by id when started at the same time
+func SortSpans(spans []*Span) {
+	sort.Slice(spans, func(i, j int) bool {
+		return spans[i].startsBefore(spans[j])
+	})
+}
+
 func (s *Span) GetDBSystem() string {
 	v := s.SpanAttributes[string(semconv.DBSystemKey)]
 	if v == nil {
-- 
2.43.0


From 14f1ffbdc3f88bb13c97403bf0a6150637b23794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:16 +0000
Subject: [PATCH 17/44] fix: accept attributes without value in Jaeger's spans

---
 otel/jaeger/v1_converter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index e67d3f6..96953ea 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -87,7 +87,9 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
-	switch vv := v.Value.(type) {
+	switch vv := v.GetValue().(type) {
+	case nil:
+		return nil
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From 66d7e74bea7213d2c3fcbdd7ac1e5a05945612e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:53 +0000
Subject: [PATCH 18/44] fix: list DB instances on all pages

---
 infra/aws/rds.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..5747bd3 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,30 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	input := &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
-	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
 	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for {
+		output, err := rds.client.DescribeDBInstances(context.Background(), input)
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: *ins.DBInstanceIdentifier,
+				DbiResourceId:      *ins.DbiResourceId,
+			})
+		}
+
+		if output.Marker == nil || *output.Marker == "" {
+			break
+		}
+		input.Marker = output.Marker
 	}
 
 	return res, nil
-- 
2.43.0


From 16b2f37dde1401bbc4409942685db8e8cd87e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:04 +0000
Subject: [PATCH 19/44] fix: read all pages of Performance Insights metrics

---
 infra/aws/performance_insights.go | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..a6cefd9 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -29,27 +29,27 @@ func NewPerformanceInsightsWithCli(cli aPi.GetResourceMetricsAPIClient) *Perform
 }
 
 func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
 func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
-func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) ([]types.MetricKeyDataPoints, error) {
+	input := &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -64,18 +64,28 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		StartTime:       &start,
 		EndTime:         lib.Ptr(start.Add(12 * time.Hour)),
 		PeriodInSeconds: lib.Ptr(int32(300)),
-	})
+	}
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	var metrics []types.MetricKeyDataPoints
+	for {
+		output, err := pi.client.GetResourceMetrics(context.Background(), input)
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		metrics = append(metrics, output.MetricList...)
+
+		if output.NextToken == nil || *output.NextToken == "" {
+			break
+		}
+		input.NextToken = output.NextToken
 	}
 
-	return output, nil
+	return metrics, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
-	for _, m := range output.MetricList {
+	for _, m := range metrics {
 		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
-- 
2.43.0


From a81365dfe8607a5cc0ffcf3df213d528cacc8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:14 +0000
Subject: [PATCH 20/44] fix: build hours of database loads in UTC

---
 infra/aws/pi_sql_load_avg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..34eb8a4 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -26,7 +26,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 	dbLoadMap := map[time.Time]map[string]*viewmodel.VmDbLoad{}
 	for _, avg := range avgs {
 		for _, v := range avg.Values {
-			baseTime := lib.NormalizeTimeByHour(v.Time)
+			baseTime := lib.NormalizeTimeByHour(v.Time.UTC())
 			if _, ok := sqlLoadMap[baseTime]; !ok {
 				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
 			}
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From c506b0d0455b1b929dbfd2397443beb25bb87356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:46 +0000
Subject: [PATCH 21/44] fix: order spans by start time after compacting a trace

---
 otel/omodel/trace_tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otel/omodel/trace_tree.go b/otel/omodel/trace_tree.go
index 62df8b0..73c3f83 100644
--- a/otel/omodel/trace_tree.go
+++ b/otel/omodel/trace_tree.go
@@ -31,6 +31,8 @@ func (tt *TraceTree) Compact() *TraceTree {
 	tt.visit(newTraceCompacter(top))
 
 	if len(top.Children) > 0 {
+		// children of removed spans are put together and may not be in order
+		top.Children[0].SortChildren()
 		return &TraceTree{Root: top.Children[0]}
 	} else {
 		return &TraceTree{Root: nil}
-- 
2.43.0


From bc8cfe594d7c13bc665a549a49cc77345faafd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:56 +0000
Subject: [PATCH 22/44] fix: don't count a period of Performance Insights in
 two half days

---
 cmd/db/dig/performance_insights.go | 2 ++
 infra/aws/performance_insights.go  | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/db/dig/performance_insights.go b/cmd/db/dig/performance_insights.go
index 134d859..194c536 100644
--- a/cmd/db/dig/performance_insights.go
+++ b/cmd/db/dig/performance_insights.go
@@ -57,6 +57,8 @@ func (pr *piRunner) dig(outputPath string, rdsCli *aws.Rds, piCli *aws.Performan
 		}
 		startFrom = t
 	}
+	// PerformanceInsights extends a range to full periods, so ranges overlap unless they start with a period
+	startFrom = startFrom.Truncate(aws.PiPeriod)
 	end := startFrom.Add(7 * 24 * time.Hour)
 	var sqlLoadAvgs []*aws.PiSQLLoadAvg
 	var tokenizedSqlLoadAvgs []*aws.PiSQLLoadAvg
diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index a6cefd9..19579aa 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -14,6 +14,9 @@ const loadAvgMetricName = "db.load.avg"
 const sqlGroupName = "db.sql"
 const tokenizedSqlGroupName = "db.sql_tokenized"
 
+// PiPeriod is the period of each data point gotten from PerformanceInsights
+const PiPeriod = 5 * time.Minute
+
 type PerformanceInsights struct {
 	client aPi.GetResourceMetricsAPIClient
 }
@@ -63,7 +66,7 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		ServiceType:     types.ServiceTypeRds,
 		StartTime:       &start,
 		EndTime:         lib.Ptr(start.Add(12 * time.Hour)),
-		PeriodInSeconds: lib.Ptr(int32(300)),
+		PeriodInSeconds: lib.Ptr(int32(PiPeriod / time.Second)),
 	}
 
 	var metrics []types.MetricKeyDataPoints
-- 
2.43.0


From d7d489dd0eb858ba8329e7e12f3ac6716697d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:18 +0000
Subject: [PATCH 23/44] fix: don't expose columns of a subquery's condition to
 its outer query

---
 database/dservice/dparser/build_table_fields.go | 2 +-
 database/dservice/dparser/field.go              | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 13f5c7c..525e343 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -99,7 +99,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		}
 
 		n := f.Name()
-		if n != "" {
+		if n != "" && !f.isCondition() {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 176faab..d6df11f 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -14,3 +14,8 @@ func (f *Field) Name() string {
 
 	return ""
 }
+
+// isCondition returns true when the field comes from WHERE or ON, that is, it isn't a column exposed by the statement
+func (f *Field) isCondition() bool {
+	return len(f.Columns) > 0 && f.Columns[0].Type == FieldCondition
+}
-- 
2.43.0


From d08e6991afaa072bb8b32a43ab0ccbce1e6227db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:09 +0000
Subject: [PATCH 24/44] fix: refuse UNION etc. of PostgreSQL instead of
 panicking

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 307df08..b03bebd 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -44,9 +44,13 @@ func newScopeCollector(targetSchema string) *scopeCollector {
 
 func CollectStmtScopes(stmt *parser.Statement, targetSchema string) ([]*dparser.StmtScope, []error) {
 	sc := newScopeCollector(targetSchema)
-	if _, ok := stmt.AST.(*tree.Select); !ok {
+	sel, ok := stmt.AST.(*tree.Select)
+	if !ok {
 		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
 	}
+	if _, ok := sel.Select.(*tree.SelectClause); !ok {
+		return nil, []error{lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")}
+	}
 
 	errs := ast.Walk(sc, stmt)
 	if len(errs) > 0 {
-- 
2.43.0


From 70156e6fc1e47f8508556dbce3d92045c5c9f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:50 +0000
Subject: [PATCH 25/44] fix: read tables in parentheses without endless
 recursion

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index b03bebd..ffb90e3 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -514,7 +514,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 		case *tree.AliasedTableExpr:
 			sc.lastError = lib.NewInvalidAstError("nested AS is unexpected")
 		case *tree.ParenTableExpr:
-			return sc.collectTables(tt)
+			return sc.collectTables(tt.Expr)
 		case *tree.JoinTableExpr:
 			tables, fields = sc.collectJoinReferences(tt)
 		case *tree.RowsFromExpr:
@@ -532,7 +532,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
 		}
 	case *tree.ParenTableExpr:
-		return sc.collectTables(t)
+		return sc.collectTables(t.Expr)
 	case *tree.JoinTableExpr:
 		tables, fields = sc.collectJoinReferences(t)
 	case *tree.RowsFromExpr:
-- 
2.43.0


From ca1ddaa3dee1e5abdd496bd1d2fb6c707d247fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:59 +0000
Subject: [PATCH 26/44] fix: refuse UNION in a subquery of PostgreSQL instead
 of panicking

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index ffb90e3..72d2c94 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -588,6 +588,13 @@ func (sc *scopeCollector) collectJoinReferences(j *tree.JoinTableExpr) ([]*dpars
 func (sc *scopeCollector) newSelectInfo(t *tree.Subquery, prefix string) (*selectInfo, error) {
 	switch s := t.Select.(type) {
 	case *tree.ParenSelect:
+		switch s.Select.Select.(type) {
+		case *tree.UnionClause:
+			return nil, lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")
+		case *tree.ParenSelect:
+			return nil, lib.NewUnsupportedError("not supporting a subquery with redundant parentheses")
+		}
+
 		cnt := sc.incrementFoundPrefixCounter(prefix)
 		info := &selectInfo{name: fmt.Sprintf("<%s%d>", prefix, cnt)}
 		sc.foundSelectInfos[s.Select] = info
-- 
2.43.0


From b84724571e1a74b92dea7c2c9f9ee71078d252c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:21 +0000
Subject: [PATCH 27/44] fix: do not look up bare columns in subqueries used as
 values

---
 database/dservice/dparser/build_table_fields.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 525e343..1639d04 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -67,12 +67,13 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	visibleCols := info.getVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
-		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
+		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		info.addSubqueryInfo(s.Name, s.Name, cols, newFieldColumns)
+		// unlike tables, columns of a subquery used as a value cannot be referenced from outside
+		info.addReferencingFields(newFieldColumns)
 	}
 
 	var outputCols []*outputCol
-- 
2.43.0


From c6929bc1a59d6b88c30e0a8f2bd57d9101b265c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 28/44] fix: let nested subqueries refer to tables of all outer
 queries

---
 database/dservice/dparser/build_table_fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 1639d04..d0747c6 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -64,7 +64,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := lo.Assign(info.originalExternalCols, info.getVisibleColumns())
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
-- 
2.43.0


From 1300194ed4611966bc0877e639dc3a1695f6e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:19 +0000
Subject: [PATCH 29/44] fix: collect columns of DISTINCT ON in PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 72d2c94..4731759 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -90,6 +90,14 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			Columns: cols,
 		})
 	}
+	for _, expr := range stmt.DistinctOn {
+		f, err := sc.createFieldFromExpr(expr, dparser.FieldReference)
+		if err == nil {
+			foundFields = append(foundFields, f)
+		} else {
+			sc.errors = append(sc.errors, err)
+		}
+	}
 	for _, t := range stmt.From.Tables {
 		tables, fields := sc.collectTables(t)
 		if err := sc.getAndClearLastError(); err != nil {
-- 
2.43.0


From d17921c9288c6fb5f3ae3f6221c6e9d5db2786ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:29 +0000
Subject: [PATCH 30/44] fix: find MySQL columns having upper case letters

---
 database/mysql/mservice/parser/collect_table_schemas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_table_schemas.go b/database/mysql/mservice/parser/collect_table_schemas.go
index bc87b80..01e913b 100644
--- a/database/mysql/mservice/parser/collect_table_schemas.go
+++ b/database/mysql/mservice/parser/collect_table_schemas.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/rs/zerolog/log"
+	"strings"
 )
 
 func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dparser.TableSchema, error) {
@@ -15,7 +16,8 @@ func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dpars
 	}
 
 	schemas := dparser.CreateTableSchemas(tables, cols, func(c *mysql.ColumnInfo) (string, string, bool) {
-		return c.TableName, c.ColumnName, c.ColumnKey == "PRI"
+		// column names are case-insensitive, and those in query are collected in lower case
+		return c.TableName, strings.ToLower(c.ColumnName), c.ColumnKey == "PRI"
 	})
 
 	for i, table := range tables {
-- 
2.43.0


From eae1f935f1e5c112b6d4fa864780c5e4ba01f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 31/44] fix: collect columns having COLLATE in MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..684af36 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -244,7 +244,7 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From 6cb206a2b8f3e7e3f93996bf2ca937715baa27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:47 +0000
Subject: [PATCH 32/44] fix: collect columns in ORDER BY of GROUP_CONCAT

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 684af36..097a39f 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -258,6 +258,11 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From f56268bb86355b1cba048984365a4e5a61359f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 33/44] fix: exclude executions with a lost connection from the
 time of a query on PostgreSQL

---
 database/postgres/pservice/index_examiner.go |  5 +--
 infra/postgres/db.go                         | 36 ++++++++++++++++++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/database/postgres/pservice/index_examiner.go b/database/postgres/pservice/index_examiner.go
index a2ab565..8720d58 100644
--- a/database/postgres/pservice/index_examiner.go
+++ b/database/postgres/pservice/index_examiner.go
@@ -5,7 +5,6 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/mrasu/GravityR/infra/postgres"
 	"github.com/mrasu/GravityR/lib"
-	"time"
 )
 
 type IndexExaminer struct {
@@ -21,12 +20,10 @@ func NewIndexExaminer(db *postgres.DB, query string) *IndexExaminer {
 }
 
 func (ie *IndexExaminer) Execute() (int64, error) {
-	start := time.Now()
-	_, err := ie.db.Exec(ie.query)
+	elapsed, err := ie.db.MeasureExec(ie.query)
 	if err != nil {
 		return 0, err
 	}
-	elapsed := time.Since(start)
 
 	return elapsed.Milliseconds(), nil
 }
diff --git a/infra/postgres/db.go b/infra/postgres/db.go
index 96afafb..c3b5d96 100644
--- a/infra/postgres/db.go
+++ b/infra/postgres/db.go
@@ -1,13 +1,18 @@
 package postgres
 
 import (
+	"context"
 	"database/sql"
+	"database/sql/driver"
 	"fmt"
 	"github.com/jmoiron/sqlx"
 	_ "github.com/lib/pq"
 	"github.com/pkg/errors"
+	"time"
 )
 
+const maxBadConnRetries = 2
+
 type DB struct {
 	db *sqlx.DB
 }
@@ -38,6 +43,37 @@ func (db *DB) Exec(query string) (sql.Result, error) {
 	return res, nil
 }
 
+// MeasureExec executes query and returns the time of the execution.
+// Like Exec, query is executed again when the connection turns out to be broken, but the time of broken one isn't included.
+func (db *DB) MeasureExec(query string) (time.Duration, error) {
+	var elapsed time.Duration
+	var err error
+	for i := 0; i <= maxBadConnRetries; i++ {
+		elapsed, err = db.measureExecOnce(query)
+		if !errors.Is(err, driver.ErrBadConn) {
+			break
+		}
+	}
+	if err != nil {
+		return 0, errors.Wrap(err, fmt.Sprintf("failed to execute query: %s", query))
+	}
+
+	return elapsed, nil
+}
+
+func (db *DB) measureExecOnce(query string) (time.Duration, error) {
+	ctx := context.Background()
+	conn, err := db.db.Conn(ctx)
+	if err != nil {
+		return 0, err
+	}
+	defer conn.Close()
+
+	start := time.Now()
+	_, err = conn.ExecContext(ctx, query)
+	return time.Since(start), err
+}
+
 func (db *DB) ExplainWithAnalyze(query string) ([]string, error) {
 	var res []string
 	err := db.db.Select(&res, "EXPLAIN (ANALYZE, BUFFERS) "+query)
-- 
2.43.0


From a0d3ac1a58011ec4e374577c1e02c9c3eb627145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:17 +0000
Subject: [PATCH 34/44] fix: tell tables of an outer query from tables having
 the same name in a subquery

---
 .../dservice/dparser/build_table_fields.go    | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index d0747c6..e52a487 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -268,7 +268,6 @@ func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalC
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
 	for tName := range externalCols {
-		asToName[tName] = tName
 		subqueryAsNames.Add(tName)
 	}
 	for _, t := range tables {
@@ -289,25 +288,16 @@ func (t *refTables) addSubquery(name, asName string, cols []*outputCol) {
 	t.subqueryAsNames.Add(asName)
 }
 
-func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
-	if cols, ok := t.internalCols[name]; ok {
-		return cols, nil
-	}
-	res, ok := t.externalCols[name]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
-	}
-
-	return res, nil
-}
-
 func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
-	name, ok := t.asToName[asName]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
+	if name, ok := t.asToName[asName]; ok {
+		if cols, ok := t.internalCols[name]; ok {
+			return cols, nil
+		}
+	} else if cols, ok := t.externalCols[asName]; ok {
+		return cols, nil
 	}
 
-	return t.getTableColsFromName(name)
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 }
 
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
-- 
2.43.0


From a07f35d9ce0269de2c356f4d8e7d6a58b4641e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 35/44] fix: receive Jaeger traces larger than 4 MiB

---
 infra/jaeger/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/infra/jaeger/client.go b/infra/jaeger/client.go
index acbb0a2..6c52e63 100644
--- a/infra/jaeger/client.go
+++ b/infra/jaeger/client.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/credentials/insecure"
 	"io"
+	"math"
 	"time"
 )
 
@@ -17,6 +18,8 @@ type Client struct {
 func Open(address string, isSecure bool) (*Client, error) {
 	opts := []grpc.DialOption{
 		grpc.WithBlock(),
+		// a trace arrives in one message, which may be larger than gRPC's default limit of 4 MiB
+		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(math.MaxInt32)),
 	}
 	if !isSecure {
 		opts = append(opts, grpc.WithTransportCredentials(insecure.NewCredentials()))
-- 
2.43.0


From fa18f0ba24878d775178bfcde9dc1e3366f1fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 36/44] fix: do not send Hasura's admin secret to other hosts
 after a redirect

---
 infra/hasura/client.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 2c1d190..c3c5fda 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -19,8 +19,9 @@ const (
 )
 
 type Client struct {
-	baseURL *url.URL
-	headers map[string]string
+	baseURL    *url.URL
+	headers    map[string]string
+	httpClient *http.Client
 }
 
 func NewClient(cfg *Config) *Client {
@@ -29,9 +30,22 @@ func NewClient(cfg *Config) *Client {
 		headers: map[string]string{
 			"x-hasura-admin-secret": cfg.AdminSecret,
 		},
+		httpClient: &http.Client{CheckRedirect: checkRedirect},
 	}
 }
 
+// checkRedirect refuses to leave the configured server because net/http sends the admin secret along.
+func checkRedirect(req *http.Request, via []*http.Request) error {
+	from := via[0].URL
+	if req.URL.Hostname() != from.Hostname() || (req.URL.Scheme != from.Scheme && req.URL.Scheme != "https") {
+		return errors.Errorf("redirect from %s to %s is refused", from.Host, req.URL.Host)
+	}
+	if len(via) >= 10 {
+		return errors.New("stopped after 10 redirects")
+	}
+	return nil
+}
+
 func (c *Client) QueryWithoutResult(query string, variables map[string]interface{}) error {
 	body := map[string]interface{}{
 		"query":     query,
@@ -140,7 +154,7 @@ func (c *Client) post(pathname string, body interface{}) ([]byte, error) {
 	for k, v := range c.headers {
 		req.Header.Add(k, v)
 	}
-	res, err := http.DefaultClient.Do(req)
+	res, err := c.httpClient.Do(req)
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to execute http request to hasura")
 	}
-- 
2.43.0


From 4e1b12b262dae68253d19c4f195e12930b937122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 37/44] fix: accept joins in parentheses on PostgreSQL

---
 database/postgres/pservice/ast/ast_walker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index a07fe32..82c6d26 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -144,6 +144,8 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				for _, order := range node {
 					walk(order)
 				}
+			case *tree.ParenTableExpr:
+				walk(node.Expr)
 			case *tree.OrExpr:
 				walk(node.Left, node.Right)
 			case *tree.ParenExpr:
-- 
2.43.0


From 4230c1b1e9c01476ed914196f2c878fe0f21dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:24 +0000
Subject: [PATCH 38/44] fix: refuse tables of schema public when another schema
 is configured

---
 database/postgres/pservice/parser/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/index.go b/database/postgres/pservice/parser/index.go
index af722fe..1888405 100644
--- a/database/postgres/pservice/parser/index.go
+++ b/database/postgres/pservice/parser/index.go
@@ -18,7 +18,7 @@ func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement)
 		return nil, []error{err}
 	}
 
-	scopes, errs := CollectStmtScopes(stmt, "public")
+	scopes, errs := CollectStmtScopes(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
-- 
2.43.0


From a084bcc5068f9c0754cdc1ad8f6429fa4d28c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:39 +0000
Subject: [PATCH 39/44] fix: keep numbers of Hasura's variables as they are
 written

---
 cmd/db/suggest/hasura/postgres.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 8fe1f74..a27980b 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -16,6 +16,8 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"io"
+	"strings"
 )
 
 var PostgresCmd = &cobra.Command{
@@ -132,10 +134,16 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 }
 
 func (pr *postgresRunner) parseJSONToVariables(jsonStr string) (map[string]interface{}, error) {
+	// numbers are kept as they are written because float64 cannot hold every integer (ex: bigint)
 	var variables map[string]interface{}
-	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {
+	d := json.NewDecoder(strings.NewReader(jsonStr))
+	d.UseNumber()
+	if err := d.Decode(&variables); err != nil {
 		return nil, errors.Wrap(err, "failed to parse variables")
 	}
+	if _, err := d.Token(); err != io.EOF {
+		return nil, errors.New("failed to parse variables: unexpected text after the JSON")
+	}
 
 	return variables, nil
 }
-- 
2.43.0


From 8ce54eb102873094d2a84a653082eb6ea043ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 40/44] fix: suggest indexes for queries having many columns
 without listing all permutations

---
 .../dservice/dparser/index_target_builder.go  | 81 ++++++++-----------
 1 file changed, 34 insertions(+), 47 deletions(-)

diff --git a/database/dservice/dparser/index_target_builder.go b/database/dservice/dparser/index_target_builder.go
index 7f7f653..2ab79d7 100644
--- a/database/dservice/dparser/index_target_builder.go
+++ b/database/dservice/dparser/index_target_builder.go
@@ -5,6 +5,7 @@ import (
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
 	"github.com/samber/lo"
+	"sort"
 )
 
 type IndexTargetBuilder struct {
@@ -70,65 +71,51 @@ func (itb *IndexTargetBuilder) buildIndexComposition(fieldColumns *lib.Set[*Fiel
 	return idxFieldList
 }
 
+// extractEfficientIndexes lists indexes having only columns used as conditions (in every order)
+// and indexes covering all columns, in which columns only referenced come last by their names.
 func (itb *IndexTargetBuilder) extractEfficientIndexes(fieldColumns *lib.Set[*FieldColumn]) []index {
-	compositions := itb.compositeFieldColumns(fieldColumns)
-
-	var efficientIndexFields []index
-	for _, fields := range compositions {
-		for i := 0; i < len(fields); i++ {
-			if fields[i].Type != FieldReference {
-				continue
-			}
-
-			if len(fields) != fieldColumns.Count() {
-				goto next
-			}
+	var conditions, references index
+	for _, fc := range fieldColumns.Values() {
+		f := &IndexField{Name: fc.Name, Type: fc.Type}
+		switch fc.Type {
+		case FieldCondition:
+			conditions = append(conditions, f)
+		case FieldReference:
+			references = append(references, f)
+		}
+	}
+	sort.Slice(references, func(i, j int) bool { return references[i].Name < references[j].Name })
 
-			for j := i + 1; j < len(fields); j++ {
-				if fields[j].Type != FieldReference {
-					goto next
-				}
+	efficientIndexFields := itb.permuteFields(conditions)
+	isCoverable := len(conditions)+len(references) == fieldColumns.Count()
+	if len(references) == 0 || !isCoverable {
+		return efficientIndexFields
+	}
 
-				// pick ordered fields only to avoid duplicating index
-				if fields[j-1].Name > fields[j].Name {
-					goto next
-				}
-			}
+	if len(conditions) == 0 {
+		return []index{references}
+	}
+	for _, fields := range efficientIndexFields {
+		if len(fields) == len(conditions) {
+			efficientIndexFields = append(efficientIndexFields, append(fields[:len(fields):len(fields)], references...))
 		}
-		efficientIndexFields = append(efficientIndexFields, fields)
-	next:
 	}
-
 	return efficientIndexFields
 }
 
-func (itb *IndexTargetBuilder) compositeFieldColumns(fColumns *lib.Set[*FieldColumn]) []index {
-	var compositions []index
-	for _, fc := range fColumns.Values() {
-		if !(fc.Type == FieldReference || fc.Type == FieldCondition) {
-			continue
-		}
-
-		fColumns.Delete(fc)
-		res2 := itb.compositeFieldColumns(fColumns)
-		fColumns.Add(fc)
-
-		compositions = append(compositions, index{{
-			Name: fc.Name,
-			Type: fc.Type,
-		}})
-		for _, r := range res2 {
-			r2 := r[:]
-			r2 = append(r2, &IndexField{
-				Name: fc.Name,
-				Type: fc.Type,
-			})
+// permuteFields lists all orders of all non-empty combinations of fields
+func (itb *IndexTargetBuilder) permuteFields(fields index) []index {
+	var res []index
+	for i, f := range fields {
+		res = append(res, index{f})
 
-			compositions = append(compositions, r2)
+		others := append(fields[:i:i], fields[i+1:]...)
+		for _, idx := range itb.permuteFields(others) {
+			res = append(res, append(idx, f))
 		}
 	}
 
-	return compositions
+	return res
 }
 
 func (itb *IndexTargetBuilder) removePkOnlyFields(pkCols []string, indexFieldList []index) []index {
-- 
2.43.0


From 98909446e65b9e57afbfce1ac0c6b8fcb0170e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:02 +0000
Subject: [PATCH 41/44] fix: tell PostgreSQL columns differing only in case
 from each other when looking for existing indexes

---
 database/dmodel/index_target.go         | 2 +-
 database/mysql/mservice/index_getter.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 6b42436..f5a3afb 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -121,7 +121,7 @@ func (it *IndexTarget) HasSameIdxColumns(info *IndexTarget) bool {
 	}
 
 	for i, col := range info.Columns {
-		if !strings.EqualFold(it.Columns[i].Name, col.Name) {
+		if it.Columns[i].Name != col.Name {
 			return false
 		}
 	}
diff --git a/database/mysql/mservice/index_getter.go b/database/mysql/mservice/index_getter.go
index ac8f0ae..9a3e5e3 100644
--- a/database/mysql/mservice/index_getter.go
+++ b/database/mysql/mservice/index_getter.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/samber/lo"
+	"strings"
 )
 
 type IndexGetter struct {
@@ -21,6 +22,8 @@ func (ig *IndexGetter) GetIndexes(dbName string, tables []string) ([]*dmodel.Ind
 	}
 
 	return lo.Map(infos, func(info *mysql.IndexInfo, _ int) *dmodel.IndexTarget {
-		return dmodel.NewIndexTarget(info.TableName, info.Columns)
+		// column names are case-insensitive, and those in query are collected in lower case
+		cols := lo.Map(info.Columns, func(c string, _ int) string { return strings.ToLower(c) })
+		return dmodel.NewIndexTarget(info.TableName, cols)
 	}), nil
 }
-- 
2.43.0


From 206e98ba37d447e4d0664cd644a83d6d749ea9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 42/44] fix: accept PostgreSQL's window frames having no end

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 4731759..04213fb 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -405,7 +405,10 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
 				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				// EndBound is omissible. e.g.) `ROWS 1 PRECEDING`
+				if frame.Bounds.EndBound != nil {
+					res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				}
 			}
 		}
 
-- 
2.43.0


From cd9cd7df3be2f70b54587cc8fc911749faeeec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:28 +0000
Subject: [PATCH 43/44] fix: find subqueries in OFFSET and in ORDER BY of
 functions and windows

---
 database/postgres/pservice/ast/ast_walker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index 82c6d26..bcdeabf 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -129,7 +129,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				if node.WindowDef != nil {
 					walk(node.WindowDef)
 				}
-				walk(node.Exprs, node.Filter)
+				walk(node.Exprs, node.Filter, node.OrderBy)
 			case *tree.IndexTableDef:
 			case *tree.JoinTableExpr:
 				walk(node.Left, node.Right, node.Cond)
@@ -168,7 +168,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 				walk(node.Select)
 			case *tree.Limit:
-				walk(node.Count)
+				walk(node.Count, node.Offset)
 			case *tree.SelectClause:
 				walk(node.Exprs)
 				if node.Where != nil {
@@ -228,7 +228,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 					walk(windowDef)
 				}
 			case *tree.WindowDef:
-				walk(node.Partitions)
+				walk(node.Partitions, node.OrderBy)
 				if node.Frame != nil {
 					walk(node.Frame)
 				}
-- 
2.43.0


From 7efd5c28662d4aa5a02bfe66980c4903fd5c0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 44/44] fix: find columns in values assigned to MySQL's
 variables

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 097a39f..74839dd 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -234,7 +234,10 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 	case *ast.ValuesExpr:
 		sc.lastError = lib.NewInvalidAstError("VALUES is not expected")
 	case *ast.VariableExpr:
-		// do nothing as variable doesn't relate to table's column
+		// only assigned value (@a := b) relates to table's column
+		if e.Value != nil {
+			res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
+		}
 	case *ast.MaxValueExpr:
 		// MAXVALUE appears in table definition for partition
 		sc.lastError = lib.NewInvalidAstError("MAXVALUE is not expected")
-- 
2.43.0

