declare module 'validator' {
    export interface DateOptions { format?: string; strictMode?: boolean; delimiters?: string[]; }
    export interface DecimalOptions { force_decimal?: boolean; decimal_digits?: string; locale?: string; }
    export function isDate(str: string, options?: DateOptions | string): boolean;
    export function isDecimal(str: string, options?: DecimalOptions): boolean;
    export function isInt(str: string, options?: object): boolean;
    export function isEmail(str: string, options?: object): boolean;
    export function normalizeEmail(email: string, options?: object): string | false;
    export function toDate(input: string): Date | null;
    export function toInt(input: string, radix?: number): number;
    export function toFloat(input: string): number;
}
