// As in @types/better-sqlite3, what generated code may use.
declare module 'better-sqlite3' {
    namespace Database {
        interface RunResult { changes: number; lastInsertRowid: number | bigint; }
        interface Options { readonly?: boolean; fileMustExist?: boolean; timeout?: number; verbose?: (message?: unknown, ...more: unknown[]) => void; }
        interface Statement<P extends unknown[] = unknown[], R = unknown> {
            database: Database; source: string; reader: boolean; readonly: boolean; busy: boolean;
            run(...params: P): RunResult;
            get(...params: P): R | undefined;
            all(...params: P): R[];
            iterate(...params: P): IterableIterator<R>;
            pluck(toggle?: boolean): this;
            expand(toggle?: boolean): this;
            raw(toggle?: boolean): this;
            bind(...params: P): this;
            safeIntegers(toggle?: boolean): this;
        }
        interface Database {
            memory: boolean; readonly: boolean; name: string; open: boolean; inTransaction: boolean;
            prepare(source: string): Statement;
            exec(source: string): this;
            pragma(source: string, options?: {simple?: boolean}): unknown;
            defaultSafeIntegers(toggle?: boolean): this;
            close(): this;
        }
    }
    interface Constructor { new (filename?: string | Buffer, options?: Database.Options): Database.Database; (filename?: string, options?: Database.Options): Database.Database; }
    const Database: Constructor;
    export = Database;
}
