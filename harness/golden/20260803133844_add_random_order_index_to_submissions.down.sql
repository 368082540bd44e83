DROP INDEX random_submissions_order;
ALTER TABLE submissions DROP COLUMN random_order;
