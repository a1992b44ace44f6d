SE = "mixtera/core/query/operators/select.py"
BA = "mixtera/core/query/operators/_base.py"
QU = "mixtera/core/query/query.py"
QP = "mixtera/core/query/query_plan.py"
DC = "mixtera/core/datacollection/mixtera_data_collection.py"
C = ["C25"]
import re
_s = open("/repo/" + SE).read()
V = [
    ("bug", C, SE, ('clauses.append(f"{field} NOT IN ({placeholders})")', 'clauses.append(f"{field} IN ({placeholders})")')),
    ("bug", C, SE, ('clauses.append(f"NOT array_contains({field}, ?)")', 'clauses.append(f"array_contains({field}, ?)")')),
    ("bug", C, SE, ('clauses.append(f"{field} IS NOT NULL")', 'clauses.append(f"{field} IS NULL")')),
    ("bug", C, SE, ('">=": ">="', '">=": ">"')),
    ("bug", C, SE, ('"<": "<"', '"<": "<="')),
    ("bug", C, SE, ('" OR ".join(sub_clauses)', '" AND ".join(sub_clauses)')) if False else
    ("bug", C, SE, ("isinstance(value, list) and len(value) == 1", "isinstance(value, list)")),
    ("bug", C, SE, ('clauses.append(f"{field} {sql_operator} ?")\n                        params.append(value)', 'clauses.append(f"{field} {sql_operator} \'{value}\'")')),
    ("bug", C, SE, ("' AND '.join(and_clauses)", "' OR '.join(and_clauses)")),
    ("bug", C, SE, ('where_clause = " OR ".join(or_clauses)', 'where_clause = " AND ".join(or_clauses)')),
    ("bug", C, SE, ("                    all_params.extend(child_params)", "                    all_params[:0] = child_params")),
    ("bug", C, SE, ("                    all_params.extend(child_params)", "                    all_params.extend(params)")),
    ("bug", C, SE, ("            all_params.extend(params)\n", "")),
    ("bug", C, SE, ("                if field not in schema:", "                if field not in schema and not self.children:")),
    ("bug", C, SE, ('                            clauses.append(f"array_contains({field}, ?)")\n                            params.append(value)', '                            clauses.append(f"array_contains({field}, ?)")')),
    ("bug", C, SE, ('                            clauses.append(f"{field} IN ({placeholders})")\n                            params.extend(value)', '                            clauses.append(f"{field} IN ({placeholders})")\n                            params.append(value)')),
    ("bug", C, SE, ("        existing_select.children.append(self)\n", "")),
    ("bug", C, SE, ("        return existing_select", "        return self")),
    ("bug", C, BA, ("            self.children.append(query_plan.root)\n", "            pass\n")),
    ("bug", C, QP, ("            self.root = operator.insert(self)", "            operator.insert(self)")) if False else
    ("bug", C, QP, ("            self.root = operator.insert(self)", "            self.root = operator")),
    ("bug", C, QU, ("mdc._connection.execute(full_query, parameters)", "mdc._connection.execute(full_query, [])")),
    ("bug", C, DC, ("(identifier, loc, type_id, serialized_parsing_func)", "(loc, identifier, type_id, serialized_parsing_func)")),
    ("bug", C, DC, ('"SELECT COUNT(*) from datasets WHERE name = ?;"', 'f"SELECT COUNT(*) from datasets WHERE name = \'{identifier}\' OR name = ?;"')),
    ("bug", C, DC, ('DELETE FROM datasets WHERE name = ?;', 'DELETE FROM datasets WHERE name = ? OR location = ?;')),
    ("bug", C, DC, ("id_map = {loc: fid for fid, loc in result}", "id_map = {fid: loc for fid, loc in result}")),
    ("bug", C, DC, ("option.replace(\"'\", \"''\") for option in sorted(prop.enum_options)", "sorted(prop.enum_options)")),
    ("bug", C, DC, ("str(duckdb_tmp_dir).replace(\"'\", \"''\")", "str(duckdb_tmp_dir)")),
    ("bug", C, DC, ("SELECT location from files WHERE id = ?", "SELECT location from files WHERE dataset_id = ?")) if False else
    ("bug", C, DC, ('SELECT parsing_func from datasets', 'SELECT location from datasets')),
    ("ok", [], SE, ('clauses.append(f"NOT array_contains({field}, ?)")', 'clauses.append(f"NOT list_contains({field}, ?)")')),
    ("ok", [], SE, ('clauses.append(f"{field} {sql_operator} ?")\n                        params.append(value)', 'params.append(value)\n                        clauses.append(field + " " + sql_operator + " ?")')),
    ("ok", [], SE, ("                for field, op, value in conditions:" if "                for field, op, value in conditions:" in _s else "for field, op, value in conditions:", "for condition in conditions:\n                field, op, value = condition")),
    ("ok", [], SE, ('placeholders = ", ".join(["?"] * len(value))', 'placeholders = ", ".join("?" for _ in value)')),
    ("ok", [], QP, ("        if self.is_empty():\n            self.root = operator\n        else:\n            self.root = operator.insert(self)", "        self.root = operator if self.root is None else operator.insert(self)")),
    ("ok", [], SE, ("        existing_select = query_plan.root\n", "        existing_select: Operator = query_plan.root\n        siblings = existing_select.children\n")),
    ("ok", [], DC, ("id_map = {loc: fid for fid, loc in result}", "id_map = {row[1]: row[0] for row in result}")),
    ("ok", [], SE, [('clauses.append(f"{field} {sql_operator} ?")\n                        params.append(value)', 'clause, values = self._compare(field, sql_operator, value)\n                        clauses.append(clause)\n                        params.extend(values)'),
                    ("    def __str__(self)", "    @staticmethod\n    def _compare(column: str, operator: str, value: Any) -> tuple[str, list[Any]]:\n        return f\"{column} {operator} ?\", [value]\n\n    def __str__(self)")]),
]
