'use strict';
const { asyncHistory } = require('../memo');
module.exports = {
    property: 'F04', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'single-flight-history', run: ctx => asyncHistory(ctx, { ttl: c => (c.chance(30) ? c.int(0, 60) : undefined), maxOps: 14, pFail: 25, invalidate: true, recall: true }) }],
    rule: 'Each run is a history of calls, deletes and clears on up to three keys with random computation latency and outcome; non-trivial = a call shared, hit, expired or invalidated something.',
    real: ['packages/function memoizeWithAsync'], stub: ['clock and timers (virtual)', 'memoised function (generated)'],
    assumptions: ['A call exactly at the expiry instant may be served or recomputed']
};
