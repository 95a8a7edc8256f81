'use strict';
// Independent readers of command lines: a POSIX shell word splitter, cmd.exe and the Windows argv rules.

// -> {words, special}: the words of one simple command, and the first character a shell would interpret
function shWords(text) {
    const words = [];
    let cur = null, special = null, plain = '';
    const flag = ch => { if (special === null) special = ch; };
    const end = () => {
        if (cur === null) return;
        if (/\{[^{}]*(,|\.\.)[^{}]*\}/.test(plain)) flag('{');
        if (/\[[^\]]+\]/.test(plain)) flag('[');
        words.push(cur); cur = null; plain = '';
    };
    for (let i = 0; i < text.length; i++) {
        const ch = text[i];
        if (ch === ' ' || ch === '\t') { end(); continue; }
        if (ch === '\n') { flag('newline'); end(); continue; }
        const first = cur === null;
        if (first) cur = '';
        if (ch === "'") { const j = text.indexOf("'", i + 1); if (j < 0) return { words, special: 'unterminated quote' }; cur += text.slice(i + 1, j); plain += '\u0001'; i = j; continue; }
        if (ch === '"') {
            let done = false;
            for (i++; i < text.length; i++) {
                const d = text[i];
                if (d === '"') { done = true; break; }
                if (d === '\\' && /[$`"\\\n]/.test(text[i + 1] || '')) { i++; if (text[i] !== '\n') cur += text[i]; continue; }
                if (d === '$' || d === '`') flag(d);
                cur += d;
            }
            if (!done) return { words, special: 'unterminated quote' };
            plain += '\u0001';
            continue;
        }
        if (ch === '\\') { if (i + 1 >= text.length) { flag('trailing backslash'); continue; } i++; if (text[i] !== '\n') cur += text[i]; plain += '\u0001'; continue; }
        if (/[$`*?|&;()<>]/.test(ch)) flag(ch);
        if (ch === '#' && first) flag(ch);
        if (ch === '~' && first) flag(ch);
        cur += ch; plain += ch;
    }
    end();
    return { words, special };
}

// the text a program receives as command line from `cmd /d /s /c <raw>`
function cmdLine(raw, env, chars) {
    let s = raw;
    if (s.startsWith('"')) { s = s.slice(1); const j = s.lastIndexOf('"'); if (j >= 0) s = s.slice(0, j) + s.slice(j + 1); }
    const vars = {};
    for (const k of Object.keys(env)) vars[k.toUpperCase()] = env[k];
    return cmdPass(s.replace(/%([^%]+)%/g, (m, n) => (Object.hasOwn(vars, n.toUpperCase()) ? vars[n.toUpperCase()] : m)), chars);
}
function cmdPass(s, chars = '&|<>()') {
    let out = '', q = false, special = null;
    for (let i = 0; i < s.length; i++) {
        const ch = s[i];
        if (ch === '^' && !q) { i++; if (i < s.length) out += s[i]; continue; }
        if (ch === '"') q = !q;
        else if (!q && chars.includes(ch) && special === null) special = ch;
        out += ch;
    }
    return { text: out, special };
}
// CommandLineToArgvW / MSVC runtime rules (after the program name)
function winArgv(s) {
    const out = [];
    let i = 0;
    for (;;) {
        while (i < s.length && (s[i] === ' ' || s[i] === '\t')) i++;
        if (i >= s.length) return out;
        let cur = '', q = false;
        while (i < s.length && (q || (s[i] !== ' ' && s[i] !== '\t'))) {
            let n = 0;
            while (s[i] === '\\') { n++; i++; }
            if (s[i] === '"') {
                cur += '\\'.repeat(n >> 1);
                if (n & 1) { cur += '"'; i++; } else if (q && s[i + 1] === '"') { cur += '"'; i += 2; } else { q = !q; i++; }
                continue;
            }
            cur += '\\'.repeat(n);
            if (i < s.length && (q || (s[i] !== ' ' && s[i] !== '\t'))) cur += s[i++];
        }
        out.push(cur);
    }
}
// the script that powershell.exe runs, from its arguments (program name left out); null when there is none
function psScript(argv) {
    for (let i = 0; i < argv.length; i++) {
        const a = argv[i].toLowerCase();
        if (/^[-/]/.test(a)) {
            const n = a.slice(1);
            if (n && ('encodedcommand'.startsWith(n) || n === 'ec')) return Buffer.from(argv[i + 1] || '', 'base64').toString('utf16le');
            if (n && 'command'.startsWith(n)) return argv.slice(i + 1).join(' ');
            if (/^(ex|ep|inp|outp|o$|if|of|win|w$|ver|v$|psc|config)/.test(n)) i++;
            continue;
        }
        return argv.slice(i).join(' ');
    }
    return null;
}
// the string literal (or $env variable) at the start of a PowerShell expression -> {value, rest} | null
const SINGLE = "'\u2018\u2019\u201a\u201b", DOUBLE = '"\u201c\u201d\u201e';
function psString(s, env) {
    s = s.replace(/^\s+/, '');
    const v = /^\$\{?env:(\w+)\}?/i.exec(s);
    if (v) { const k = Object.keys(env || {}).find(x => x.toLowerCase() === v[1].toLowerCase()); return { value: k === undefined ? '' : env[k], rest: s.slice(v[0].length) }; }
    const set = SINGLE.includes(s[0] || '\0') ? SINGLE : DOUBLE.includes(s[0] || '\0') ? DOUBLE : null;
    if (!set) return null;
    let value = '';
    for (let i = 1; i < s.length; i++) {
        const ch = s[i];
        if (set.includes(ch)) { if (i + 1 < s.length && set.includes(s[i + 1])) { value += ch; i++; continue; } return { value, rest: s.slice(i + 1) }; }
        if (set === DOUBLE && ch === '`' && i + 1 < s.length) { i++; value += ({ n: '\n', r: '\r', t: '\t', 0: '\0' })[s[i]] ?? s[i]; continue; }
        if (set === DOUBLE && ch === '$') return null; // expands
        value += ch;
    }
    return null;
}
module.exports = { shWords, cmdLine, cmdPass, winArgv, psScript, psString };
