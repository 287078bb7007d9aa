SELECT 1
SELECT a, b AS c FROM t
SELECT DISTINCT a FROM t
SELECT DISTINCT ON (a, b) a, b, c FROM t
SELECT TOP 3 a FROM t
SELECT TOP 3 WITH TIES a FROM t
SELECT a FROM t1, t2
SELECT * FROM t AS x FINAL SAMPLE 0.1 OFFSET 0.5
SELECT * FROM t SAMPLE 1/10
SELECT * EXCEPT (a, b) FROM t
SELECT * EXCEPT a FROM t
SELECT * REPLACE (a + 1 AS a) FROM t
SELECT t.* APPLY(sum), COLUMNS('x') APPLY(avg) FROM t
SELECT COLUMNS('^a') EXCEPT (b) REPLACE (c AS d) APPLY(sum) FROM t
SELECT a FROM db.t
SELECT a FROM (SELECT 1 AS a) AS s
SELECT a FROM numbers(10) AS n
SELECT a FROM t1 INNER JOIN t2 ON t1.a = t2.a
SELECT a FROM t1 LEFT JOIN t2 USING (a, b)
SELECT a FROM t1 LEFT JOIN t2 USING a
SELECT a FROM t1 GLOBAL ANY LEFT JOIN t2 USING (a)
SELECT a FROM t1 LEFT ANY JOIN t2 USING a
SELECT a FROM t1 ANY INNER JOIN t2 ON a = b
SELECT a FROM t1 INNER ANY JOIN t2 ON a = b
SELECT a FROM t1 LEFT OUTER JOIN t2 ON a = b
SELECT a FROM t1 RIGHT OUTER JOIN t2 ON a = b
SELECT a FROM t1 FULL OUTER JOIN t2 ON a = b
SELECT a FROM t1 FULL JOIN t2 ON a = b
SELECT a FROM t1 LEFT SEMI JOIN t2 ON a = b
SELECT a FROM t1 SEMI LEFT JOIN t2 ON a = b
SELECT a FROM t1 ANTI LEFT JOIN t2 ON a = b
SELECT a FROM t1 LEFT ANTI JOIN t2 ON a = b
SELECT a FROM t1 RIGHT ANTI JOIN t2 ON a = b
SELECT a FROM t1 ASOF JOIN t2 ON a = b AND c > d
SELECT a FROM t1 ASOF LEFT JOIN t2 ON a = b
SELECT a FROM t1 LEFT ASOF JOIN t2 ON a = b
SELECT a FROM t1 ALL INNER JOIN t2 ON a = b
SELECT a FROM t1 INNER ALL JOIN t2 ON a = b
SELECT a FROM t1 CROSS JOIN t2
SELECT a FROM t1 PASTE JOIN t2
SELECT a FROM t1 GLOBAL INNER JOIN t2 ON a = b
SELECT a FROM t1 LOCAL INNER JOIN t2 ON a = b
SELECT a FROM t1 GLOBAL LEFT JOIN (SELECT 1 AS a) AS t2 ON t1.a = t2.a
SELECT a FROM t1 JOIN t2 ON a = b JOIN t3 ON b = c LEFT JOIN t4 USING (d)
SELECT a FROM t1 AS x JOIN t2 AS y ON x.a = y.a
SELECT a FROM t1 FINAL JOIN t2 FINAL ON a = b
SELECT a FROM t1 SAMPLE 1/2 JOIN t2 SAMPLE 1/3 OFFSET 1/4 ON a = b
SELECT a FROM t ARRAY JOIN arr AS x, brr AS y
SELECT a FROM t LEFT ARRAY JOIN arr
SELECT a FROM t INNER ARRAY JOIN arr
SELECT a FROM t ARRAY JOIN arr AS x WHERE x > 1
SELECT a FROM t PREWHERE a > 1 WHERE b > 2
SELECT a FROM t WHERE a > 1 GROUP BY a, b HAVING count() > 1 ORDER BY a
SELECT a FROM t GROUP BY a WITH ROLLUP
SELECT a FROM t GROUP BY a WITH CUBE
SELECT a FROM t GROUP BY a WITH TOTALS
SELECT a FROM t GROUP BY a WITH ROLLUP WITH TOTALS
SELECT a FROM t GROUP BY a WITH CUBE WITH TOTALS
SELECT a FROM t GROUP BY ROLLUP(a, b)
SELECT a FROM t GROUP BY CUBE(a, b)
SELECT a FROM t GROUP BY CUBE(a, b) WITH TOTALS
SELECT a FROM t GROUP BY GROUPING SETS ((a), (b), ())
SELECT a FROM t GROUP BY ALL
SELECT count() FROM t WITH TOTALS
SELECT a FROM t ORDER BY a ASC, b DESC NULLS FIRST, c NULLS LAST
SELECT a FROM t ORDER BY a AS x DESC
SELECT a FROM t ORDER BY ALL
SELECT a FROM t ORDER BY a COLLATE 'en'
SELECT a FROM t ORDER BY a WITH FILL
SELECT a FROM t ORDER BY a DESC WITH FILL FROM 1 TO 10 STEP 2
SELECT a FROM t ORDER BY a WITH FILL FROM 1
SELECT a FROM t ORDER BY a WITH FILL TO 10
SELECT a FROM t ORDER BY a WITH FILL STEP 2 STALENESS 3
SELECT a FROM t ORDER BY a WITH FILL STALENESS INTERVAL 1 DAY
SELECT a FROM t ORDER BY a WITH FILL FROM 1 TO 10 STEP 2, b WITH FILL FROM 3 INTERPOLATE (c AS c + 1, d)
SELECT a FROM t ORDER BY a WITH FILL INTERPOLATE
SELECT a FROM t LIMIT 10
SELECT a FROM t LIMIT 10 OFFSET 5
SELECT a FROM t LIMIT 5, 10
SELECT a FROM t LIMIT 1 BY a
SELECT a FROM t LIMIT 1 BY a, b LIMIT 10
SELECT a FROM t LIMIT 1 OFFSET 2 BY a
SELECT a FROM t LIMIT 1 BY a LIMIT 10 OFFSET 20
SELECT a FROM t LIMIT 1 WITH TIES
SELECT a FROM t LIMIT 10 WITH TIES OFFSET 2
SELECT a FROM t OFFSET 5
SELECT a FROM t OFFSET 5 ROWS FETCH FIRST 3 ROWS ONLY
SELECT a FROM t FETCH FIRST 5 ROWS ONLY
SELECT a FROM t SETTINGS x = 1, y = 'abc', z = {'a': 1}
SELECT a FROM t FORMAT JSON
SELECT a FROM t INTO OUTFILE 'x' FORMAT JSON
SELECT a FROM t LIMIT 1 SETTINGS x = 1 FORMAT JSON
SELECT a FROM t UNION ALL SELECT b FROM u
SELECT a FROM t UNION DISTINCT SELECT b FROM u
SELECT a FROM t UNION SELECT b FROM u
SELECT a FROM t EXCEPT SELECT b FROM u
SELECT a FROM t INTERSECT SELECT b FROM u
SELECT a FROM t UNION ALL SELECT b FROM u UNION ALL SELECT c FROM v
(SELECT 1) UNION ALL (SELECT 2)
(SELECT 1)
WITH x AS (SELECT 1) SELECT * FROM x
WITH 1 AS x SELECT x
WITH 'a' AS x, y AS (SELECT 2), f(1) AS z SELECT x, z FROM y
WITH RECURSIVE x AS (SELECT 1 UNION ALL SELECT 2) SELECT * FROM x
WITH (SELECT 1) AS x SELECT x
SELECT a FROM t WINDOW w AS (PARTITION BY a ORDER BY b)
SELECT sum(a) OVER w, avg(b) OVER (w ORDER BY c) FROM t WINDOW w AS (PARTITION BY a), v AS (w ORDER BY b ROWS UNBOUNDED PRECEDING)
SELECT sum(a) OVER () FROM t
SELECT sum(a) OVER (PARTITION BY b ORDER BY c ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW) FROM t
SELECT sum(a) OVER (ORDER BY c ROWS BETWEEN 1 PRECEDING AND 2 FOLLOWING) FROM t
SELECT sum(a) OVER (ORDER BY c RANGE BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING) FROM t
SELECT sum(a) OVER (ORDER BY c ROWS 3 PRECEDING) FROM t
SELECT sum(a) OVER (ORDER BY c RANGE UNBOUNDED FOLLOWING) FROM t
SELECT sum(a) OVER (ORDER BY c ROWS CURRENT ROW) FROM t
SELECT sum(a) OVER (ORDER BY c RANGE BETWEEN INTERVAL 1 DAY PRECEDING AND CURRENT ROW) FROM t
SELECT sum(a) OVER (ORDER BY c ROWS BETWEEN {n:UInt8} PRECEDING AND CURRENT ROW) FROM t
SELECT sum(a) IGNORE NULLS OVER w FROM t WINDOW w AS ()
SELECT any(a) RESPECT NULLS FROM t
SELECT sum(a) FILTER (WHERE a > 1) FROM t
SELECT a + b - c * d / e % f FROM t
SELECT a = b, a == b, a != b, a <> b, a < b, a <= b, a > b, a >= b FROM t
SELECT a AND b OR c AND NOT d FROM t
SELECT NOT a, -b, +c, NOT (a), -(b), - -1 FROM t
SELECT a || b || 'x' FROM t
SELECT a DIV b, a MOD b FROM t
SELECT a IS NULL, b IS NOT NULL FROM t
SELECT a IN (1, 2, 3), b NOT IN (SELECT 1), c GLOBAL IN (SELECT 2), d GLOBAL NOT IN (3) FROM t
SELECT a NOT IN t2, b IN [1, 2], c IN x FROM t
SELECT a LIKE 'x%', b NOT LIKE 'y', c ILIKE 'z', d NOT ILIKE 'w' FROM t
SELECT a BETWEEN 1 AND 2, b NOT BETWEEN 3 AND 4 FROM t
SELECT a BETWEEN 1 AND 2 AND c FROM t
SELECT a ? b : c FROM t
SELECT a > 1 ? b + 1 : c * 2 AS x FROM t
SELECT a ? b ? 1 : 2 : 3 FROM t
SELECT a REGEXP 'x' FROM t
SELECT a -> b FROM t
SELECT arrayMap(x -> x + 1, arr), arrayMap((x, y) -> x + y, a, b) FROM t
SELECT a[1], a[1][2], a.b, a.1, a.b.c, (1, 2).1, f(x)[1], f(x).1 FROM t
SELECT a::Int32, a::Array(String), '1'::DateTime64(3, 'UTC'), (a + b)::Nullable(Float64) FROM t
SELECT CAST(a AS Int32), CAST(a, 'Int32'), CAST('x' AS Enum8('a' = 1, 'b' = 2)) FROM t
SELECT CASE WHEN a THEN b END FROM t
SELECT CASE a WHEN 1 THEN 'x' WHEN 2 THEN 'y' ELSE 'z' END AS c FROM t
SELECT CASE WHEN a > 1 THEN b ELSE c END FROM t
SELECT EXTRACT(YEAR FROM d), EXTRACT(DAY FROM toDate('2020-01-01')) FROM t
SELECT extract(a, 'x') FROM t
SELECT SUBSTRING(a FROM 1 FOR 2), SUBSTRING(a FROM 1), substring(a, 1, 2) FROM t
SELECT TRIM(BOTH 'x' FROM a), TRIM(LEADING 'x' FROM a), TRIM(TRAILING 'x' FROM a), trim(a) FROM t
SELECT POSITION('a' IN b), position(a, b) FROM t
SELECT INTERVAL 1 DAY, INTERVAL '1' HOUR, INTERVAL a + 1 MONTH, now() - INTERVAL 5 MINUTE FROM t
SELECT DATE '2020-01-01', TIMESTAMP '2020-01-01 00:00:00'
SELECT date, timestamp FROM t
SELECT DATE_ADD(DAY, 1, x), dateDiff('day', a, b) FROM t
SELECT {a: 1, 'b': 2}, map('a', 1), {'x': {'y': 3}}, {} FROM t
SELECT [1, 2, 3], [], [[1], [2]], array(1), ['a', 'b'] FROM t
SELECT (1, 'a'), tuple(1), (1,), () FROM t
SELECT {p:String}, {n:UInt64}, {x:Array(String)}, {m:Map(String, UInt8)} FROM t
SELECT ?, a = ? FROM t WHERE b = ?
SELECT @@version, @a
SELECT 1, 1.5, .5, 1e3, 1.5e-3, 0x1F, 0b11, 0o17, 1_000, inf, nan, NULL, true, false
SELECT 'a', 'it''s', 'a\'b', 'a\\b', '', 'multi word', 'ünï'
SELECT "a", `b`, "c d", `e f`, "select" FROM `t`
SELECT a AS `x y`, b "z", c d FROM t
SELECT quantile(0.5)(a), topK(3)(b), quantiles(0.1, 0.9)(c) FROM t
SELECT count(DISTINCT a), count(*), groupArray(10)(DISTINCT b), uniq(a, b) FROM t
SELECT f(a, b -> c, [1], (2, 3), 'x', NULL), g() FROM t
SELECT if(a, b, c) AS x, multiIf(a, 1, b, 2, 3) FROM t
SELECT EXISTS (SELECT 1), NOT EXISTS (SELECT 2)
SELECT (SELECT 1) AS x, (SELECT a FROM t LIMIT 1)
SELECT a FROM t WHERE (a, b) IN ((1, 2), (3, 4))
SELECT JSONExtract(a, 'b', 'Array(String)') FROM t
SELECT a.b.c, a.^b, a.b::Int64 FROM t
SELECT f(* EXCEPT (a)) FROM t
SELECT a QUALIFY row_number() OVER (ORDER BY b) = 1
SELECT a FROM t QUALIFY sum(a) OVER (PARTITION BY b) > 1 ORDER BY a
SELECT a FROM VALUES('a UInt8', 1, 2)
SELECT a FROM s3('url', 'key', 'secret', 'CSV', 'a String', 'gzip')
SELECT a FROM remote('h', db.t)
SELECT a FROM merge(db, '^t')
SELECT a FROM file('x.csv', CSV, 'a Int8') FINAL
EXPLAIN SELECT 1
EXPLAIN SYNTAX SELECT a FROM t
EXPLAIN AST SELECT 1
EXPLAIN PIPELINE SELECT 1
EXPLAIN PLAN SELECT 1
EXPLAIN ESTIMATE SELECT 1
EXPLAIN INDEXES SELECT 1
EXPLAIN QUERY TREE SELECT 1
EXPLAIN PLAN actions = 1 SELECT 1
