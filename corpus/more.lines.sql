SELECT t1.a FROM t1 SEMI LEFT JOIN t2 ON a = b
SELECT a FROM t WHERE a ILIKE 'x' AND b NOT ILIKE 'y'
SELECT {'a': 1, 'b': 2}, {'x': {'y': 3}} FROM t
SELECT 1, 1.5, .5, 1e3, 1.5e-3, 0x1F FROM t
SELECT inf, nan, NULL, true, false FROM t
SELECT sum(a) OVER w AS x FROM t WINDOW w AS (ORDER BY b)
SELECT DATE('2020-01-01'), TIMESTAMP('x') FROM t
SELECT a FROM t QUALIFY x > 1 ORDER BY a
SELECT [DISTINCT a], f(1)(DISTINCT a) FROM t
SELECT a FROM t HAVING a > 1
SELECT a FROM t GROUP BY a HAVING count() > 1 LIMIT 1 BY a LIMIT 2, 3 SETTINGS x = 1
EXPLAIN SYNTAX SELECT a FROM t WHERE b = 1
CREATE TABLE t (e Int32 EPHEMERAL DEFAULT 1, f DateTime DEFAULT now()) ENGINE = Memory
CREATE TABLE t (a Int32 DEFAULT 1, b String DEFAULT 'x', c Int32 MATERIALIZED a + 1, d Int32 ALIAS a * 2) ENGINE = Memory
CREATE TABLE t (a Int32, INDEX i a TYPE minmax GRANULARITY 3, CONSTRAINT c CHECK a > 1) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (a Int32, INDEX j (a, b) TYPE set(100) GRANULARITY 1, INDEX k lower(a) TYPE tokenbf_v1(256, 2, 0) GRANULARITY 4) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (a Int32, CONSTRAINT c CHECK a > 1) ENGINE = Memory
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH DELETE GROUP BY a
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH TO DISK 'x' WHERE a GROUP BY b
CREATE TABLE t (d Date) ENGINE = ReplicatedMergeTree('/clickhouse/{shard}', '{replica}') ORDER BY (d, a)
CREATE VIEW IF NOT EXISTS db.v UUID '5f1e5c4c-1111-2222-3333-444444444444' ON CLUSTER c (a Int32) AS SELECT a FROM t
CREATE VIEW v (a Int32) COMMENT 'x' AS SELECT a FROM t
CREATE MATERIALIZED VIEW mv TO t DEFINER = CURRENT_USER SQL SECURITY DEFINER AS SELECT 1
CREATE MATERIALIZED VIEW mv DEFINER = u SQL SECURITY NONE TO t AS SELECT 1
CREATE FUNCTION IF NOT EXISTS f ON CLUSTER c AS (x) -> x + 1
CREATE FUNCTION f AS () -> 1
CREATE USER u IDENTIFIED
CREATE USER u IDENTIFIED WITH sha256_hash BY 'x'
CREATE USER u IDENTIFIED WITH double_sha1_password BY 'x'
CREATE USER u HOST LOCAL
CREATE USER u HOST NAME 'n'
CREATE USER u HOST REGEXP 'r'
CREATE USER u HOST IP '1.2.3.4'
CREATE USER u HOST LIKE 'x'
CREATE USER u HOST LOCAL, HOST NAME 'n', HOST IP 'i'
CREATE DICTIONARY d (id UInt64) PRIMARY KEY id SOURCE(NULL()) LIFETIME(0) LAYOUT(DIRECT())
ALTER TABLE db.t ON CLUSTER c ADD COLUMN IF NOT EXISTS a Int32 DEFAULT 1 AFTER b
ALTER TABLE t ADD COLUMN x String FIRST
ALTER TABLE t ADD COLUMN x String AFTER a SETTINGS y = 1
ALTER TABLE t DROP COLUMN a SETTINGS x = 1
ALTER TABLE t DETACH PARTITION p
ALTER TABLE t DROP DETACHED PARTITION ALL
ALTER TABLE t FREEZE PARTITION ALL
ALTER TABLE t CLEAR COLUMN a.b IN PARTITION (1, 2)
TRUNCATE TEMPORARY TABLE IF EXISTS t
DROP TABLE IF EXISTS t NO DELAY
DROP TEMPORARY TABLE IF EXISTS t
INSERT INTO t (a) SETTINGS x = 1 VALUES (1)
INSERT INTO t (a) FORMAT JSONEachRow SELECT 1
INSERT INTO t FORMAT CSV VALUES (1)
SYSTEM RELOAD DICTIONARY ON CLUSTER c d
SYSTEM RELOAD EMBEDDED DICTIONARIES ON CLUSTER c
SYSTEM START DISTRIBUTED SENDS
SYSTEM STOP DISTRIBUTED SENDS
SYSTEM START REPLICATED SENDS
SYSTEM STOP REPLICATED SENDS ON CLUSTER c
SYSTEM START DISTRIBUTED SENDS ON CLUSTER c
SYSTEM FLUSH DISTRIBUTED t
SYSTEM SYNC REPLICA t ON CLUSTER c
GRANT SELECT(a, b), INSERT(c) ON *.* TO u1, u2 WITH GRANT OPTION
GRANT ALL ON *.* TO u WITH GRANT OPTION WITH ADMIN OPTION
GRANT ALTER UPDATE, ALTER DELETE ON t TO u
GRANT ALTER ADD COLUMN, ALTER DROP COLUMN(a), ALTER MODIFY COLUMN ON t TO u
GRANT ALTER COMMENT COLUMN, ALTER CLEAR COLUMN, ALTER RENAME COLUMN ON t TO u
GRANT ALTER ORDER BY, ALTER SAMPLE BY ON t TO u
GRANT ALTER ADD INDEX, ALTER DROP INDEX, ALTER MATERIALIZED INDEX, ALTER CLEAR INDEX ON t TO u
GRANT ALTER ADD CONSTRAINT, ALTER DROP CONSTRAINT ON t TO u
GRANT ALTER MATERIALIZED TTL ON t TO u
GRANT ALTER MODIFY TTL ON t TO u
GRANT ALTER SETTINGS, ALTER MOVE PARTITION ON t TO u
GRANT ALTER FETCH PARTITION, ALTER FREEZE PARTITION ON t TO u
GRANT ALTER VIEW REFRESH ON t TO u
GRANT ALTER VIEW MODIFY QUERY ON t TO u
GRANT CREATE DATABASE, CREATE TABLE, CREATE VIEW, CREATE DICTIONARY, CREATE TEMPORARY TABLE, CREATE FUNCTION, CREATE USER, CREATE ROLE ON *.* TO u
GRANT CREATE ROWS POLICY ON *.* TO u
GRANT DROP DATABASE, DROP TABLE, DROP VIEW, DROP DICTIONARY, DROP FUNCTION ON *.* TO u
GRANT DROP USER ON *.* TO u
GRANT SHOW DATABASES, SHOW TABLES, SHOW COLUMNS, SHOW DICTIONARIES ON *.* TO u
GRANT SYSTEM SHUTDOWN, SYSTEM MERGES, SYSTEM TTL MERGES, SYSTEM FETCHES, SYSTEM MOVES, SYSTEM SENDS, SYSTEM CLUSTER ON *.* TO u
GRANT SYSTEM DROP CACHE ON *.* TO u
GRANT SYSTEM DROP DNS CACHE, SYSTEM DROP MARK CACHE, SYSTEM DROP UNCOMPRESSED CACHE ON *.* TO u
GRANT SYSTEM RELOAD CONFIG, SYSTEM RELOAD DICTIONARY, SYSTEM RELOAD EMBEDDED DICTIONARIES, SYSTEM RELOAD FUNCTION ON *.* TO u
GRANT SYSTEM FLUSH DISTRIBUTED, SYSTEM FLUSH LOGS ON *.* TO u
GRANT SYSTEM SYNC REPLICA, SYSTEM RESTART REPLICA, SYSTEM REPLICATION QUEUES, SYSTEM DISTRIBUTED SENDS ON *.* TO u
GRANT TRUNCATE, OPTIMIZE, KILL QUERY ON *.* TO u
GRANT ADMIN OPTION ON *.* TO u
GRANT ROLE ADMIN ON *.* TO u
GRANT dictGet ON *.* TO u
GRANT SOURCES, FILE, URL, REMOTE ON *.* TO u
GRANT INTROSPECTION ON *.* TO u
GRANT DICTGET ON *.* TO u
DESCRIBE TABLE db.t
SHOW CREATE TABLE db.t
SHOW TABLES LIKE 'x' LIMIT 5 INTO OUTFILE 'o' FORMAT CSV
SHOW TABLES NOT LIKE 'x' LIMIT 5
