'use strict';
// Nothing to install: checks the tools the framework needs are present and the sources bundle.
const { bundleAll } = require('./build');
bundleAll(['function', 'array', 'number', 'string', 'fs', 'request', 'process', 'os', 'term']).then(
    b => { console.log('bundles ok: ' + Object.entries(b).map(([k, v]) => k + ' ' + v.length).join(', ')); },
    e => { console.error(e); process.exit(1); }
);
