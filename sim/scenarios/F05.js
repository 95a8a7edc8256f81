'use strict';
const { asyncHistory, syncHistory } = require('../memo');
const ttl = c => (c.chance(12) ? undefined : c.pick([c.int(0, 3), c.int(1, 50), c.int(50, 100000)]));
module.exports = {
    property: 'F05', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [
        { name: 'sync-expiry', run: ctx => syncHistory(ctx, { ttl, maxOps: 14, pFail: 12 }) },
        { name: 'async-expiry', run: ctx => asyncHistory(ctx, { ttl, maxOps: 12, pFail: 12, invalidate: false, recall: false }) }
    ],
    rule: 'Each run is a history of calls on the virtual clock biased to expiry instants (one before, at, one after), with slow and failing computations; non-trivial = a hit or an expiry occurred.',
    real: ['packages/function memoizeWith, memoizeWithAsync'], stub: ['clock and timers (virtual)', 'memoised function (generated)'],
    assumptions: ['A call exactly at the expiry instant may be served or recomputed', 'The wall clock does not jump']
};
