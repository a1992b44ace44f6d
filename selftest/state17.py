"""C38: the interval statement."""
Q = "mixtera/core/query/query.py"
V = [
    ("bug", ["C38"], Q, ("sample_id - LAG(sample_id, 1, sample_id)\n                    OVER (PARTITION BY {partition_clause} ORDER BY sample_id) AS diff", "sample_id - LAG(sample_id, 1, sample_id)\n                    OVER (PARTITION BY {partition_clause}) AS diff")),
    ("bug", ["C38"], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN diff > 2 THEN")),
    ("bug", ["C38"], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN diff >= 1 THEN")),
    ("bug", ["C38"], Q, ("CASE WHEN diff != 1 THEN 1 ELSE 0 END", "CASE WHEN diff != 1 THEN 0 ELSE 1 END")),
    ("bug", ["C38"], Q, ("MAX(sample_id) + 1 as interval_end", "MAX(sample_id) as interval_end")),
    ("bug", ["C38"], Q, ("MAX(interval_end) as interval_end", "MIN(interval_end) as interval_end")),
    ("bug", ["C38"], Q, ("        GROUP BY {partition_clause}, group_id\n", "        GROUP BY {partition_clause}\n")),
    ("bug", ["C38"], Q, ("                    OVER (PARTITION BY {partition_clause} ORDER BY sample_id) AS group_id", "                    OVER (PARTITION BY {partition_clause} ORDER BY diff) AS group_id")),
    ("bug", ["C38"], Q, ("                    OVER (PARTITION BY {partition_clause} ORDER BY sample_id) AS diff", "                    OVER (PARTITION BY dataset_id, {partition_clause} ORDER BY sample_id DESC) AS diff")),
    ("bug", ["C38"], Q, ("            FROM grouped_samples\n", "            FROM grouped_samples\n            WHERE diff IS NOT NULL\n")),
    ("bug", ["C38"], Q, ("            FROM base_data\n", "            FROM base_data LIMIT 1000000\n")),
    ("bug", ["C38"], Q, ("LAG(sample_id, 1, sample_id)", "LAG(sample_id, 2, sample_id)")),
    ("bug", ["C38"], Q, ('group_cols = ["dataset_id", "file_id"] + sorted(', 'group_cols = ["file_id"] + sorted(')),
    ("bug", ["C38"], Q, ('if col not in ["sample_id", "dataset_id", "file_id"]]', 'if col not in ["sample_id", "dataset_id", "file_id", "language"]]')),
    ("bug", ["C38"], Q, ('partition_clause = ", ".join(group_cols)', 'partition_clause = ", ".join(group_cols[1:])')),
    ("bug", ["C38"], Q, ('partition_clause = ", ".join(group_cols)', 'partition_clause = ", ".join(group_cols[:2])')),
    ("bug", ["C38"], Q, ("execute(full_query, parameters).fetch_arrow_table(),", "execute(full_query, parameters).fetch_arrow_table().slice(0, 100000),")),
    ("bug", ["C38"], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN diff NOT IN (0, 1, 2) THEN")),
    ("bug", ["C38"], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN diff NOT BETWEEN 0 AND 2 THEN")),
    ("ok", [], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN (diff NOT IN (0, 1)) THEN")),
    ("ok", [], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN diff NOT BETWEEN 0 AND 1 THEN")),
    ("ok", [], Q, ("CASE WHEN diff != 1 THEN 1 ELSE 0 END", "CASE WHEN diff = 1 THEN 0 ELSE 1 END")),
    ("ok", [], Q, ("CASE WHEN diff != 1 THEN", "CASE WHEN diff <> 1 THEN")),
    ("ok", [], Q, [("MAX(sample_id) + 1 as interval_end", "MAX(sample_id) as last_sample"), ("MAX(interval_end) as interval_end", "MAX(last_sample) + 1 as interval_end")]),
    ("ok", [], Q, [("base_data AS", "selected AS"), ("FROM base_data", "FROM selected"), ("AS diff\n", "AS gap\n"), ("WHEN diff !=", "WHEN gap !="), ("{partition_clause}, diff, sample_id", "{partition_clause}, gap, sample_id")]),
    ("ok", [], Q, ("                {', '.join(group_cols)},\n                SUM", "                {partition_clause},\n                SUM")),
    ("ok", [], Q, ("LAG(sample_id, 1, sample_id)", "LAG(sample_id)")),
    ("ok", [], Q, ('        partition_clause = ", ".join(group_cols)\n', '        partition_clause = ", ".join(list(group_cols))\n')),
    ("ok", [], Q, [('        group_cols = ["dataset_id", "file_id"] + sorted(\n            [col for col in columns if col not in ["sample_id", "dataset_id", "file_id"]]\n        )\n', '        group_cols = self._group_columns(columns)\n'),
                   ("    def execute(self, mdc", "    @staticmethod\n    def _group_columns(columns: list) -> list:\n        location = [\"dataset_id\", \"file_id\"]\n        properties = [col for col in columns if col != \"sample_id\" and col not in location]\n        return location + sorted(properties)\n\n    def execute(self, mdc")]),
    ("ok", [], Q, [('        full_query = f"""\n        WITH', '        full_query = self._interval_sql(base_query, partition_clause, group_cols)\n        self.results = QueryResult(\n            mdc,\n            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),\n            deepcopy(mixture),\n            query_log_dir=query_log_dir,\n        )\n\n    @staticmethod\n    def _interval_sql(base_query: str, partition_clause: str, group_cols: list) -> str:\n        return f"""\n        WITH'),
                   ("        self.results = QueryResult(\n            mdc,\n            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),\n            deepcopy(mixture),  # the results must not share state with other users of the mixture object\n            query_log_dir=query_log_dir,\n        )\n\n        logger.debug(f\"Results:\\n{self.results}\")\n        logger.debug(\"Query executed.\")", "")]),
]
